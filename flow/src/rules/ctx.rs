//! The context primitives (C26) and the entry points built on them (C31).
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_middle::ty::{self, Ty};

const P: &str = "C26";
const E: &str = "C31";

/// A context argument at entry.
#[derive(Clone)]
struct At<'tcx> {
    v: Val<'tcx>,
    t: Ty<'tcx>,
    off: Lin,
    len: Lin,
    key: Option<Sym>,
}
fn at<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> Option<At<'tcx>> {
    if !cx.is_ctx_ty(cx.peel(t)) {
        return None;
    }
    let off = cx.ctx_off(st, v, t).ok()?;
    let len = cx.ctx_len(st, v, t).ok()?;
    // a position never lies beyond the end
    st.facts.add(&Atom::Ge(len.sub(&off)), &cx.tm);
    Some(At { v: v.clone(), t, off, len, key: cx.ctx_key(st, v).ok() })
}
impl<'tcx> At<'tcx> {
    fn now(&self, o: &mut O<'_, 'tcx>) -> R<Lin> {
        o.cx.ctx_off(o.st, &self.v, self.t)
    }
    fn want_pos(&self, o: &mut O<'_, 'tcx>, l: &Lin, what: &str) -> R<()> {
        o.cx.obligation("position");
        let n = self.now(o)?;
        if !o.eq(&n, l) {
            o.bad(what);
        }
        Ok(())
    }
    fn here(&self, o: &O<'_, 'tcx>, r: &Rec<'tcx>) {
        if r.ctx.is_some() && self.key.is_some() && r.ctx != self.key {
            o.bad("another context is used");
        }
    }
}

/// text of a `RegexCtx`
fn dat<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<(Ptr<'tcx>, bool)> {
    for (i, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
        if let ty::Ref(_, x, _) = ft.kind() {
            if let Val::Ref(p) = o.fld(v, t, i) {
                return Ok((p, x.is_str()));
            }
        }
    }
    o.undecided("text")
}
fn pos<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> Lin {
    let named = o.cx.field_named(t, "offset").filter(|x| x.1.is_usize()).map(|x| x.0 as usize);
    let i = named.or_else(|| o.ix(t, |x| x.is_usize())).unwrap_or(1);
    o.cx.to_lin(&o.fld(v, t, i))
}
/// a `RegexCtx` made of `d` at `off`
fn want_ctx<'tcx>(o: &mut O<'_, 'tcx>, got: &Val<'tcx>, t: Ty<'tcx>, d: &Val<'tcx>, off: &Lin, what: &str) {
    o.cx.obligation("value");
    let l = pos(o, got, t);
    if !o.eq(&l, off) {
        o.bad(format!("{what}: another position"));
    }
    let i = o.ix(t, |x| x.is_ref()).unwrap_or(0);
    let x = o.fld(got, t, i);
    if !o.same(&x, d) {
        o.bad(format!("{what}: another text"));
    }
}

pub fn rule<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    let mut r = rule_of(cx, st, f, args, me)?;
    // what these are for
    r.echo = match (f.tr.as_str(), f.adt.as_str(), f.item.as_str()) {
        ("NeuCond", ..) => vec!["C16"],
        ("Handler", "Extract", _) => vec!["C12", "C13"],
        ("Handler", ..) => vec!["C12"],
        ("MatchExt", _, "ctor_handler" | "ctor_with" | "ctor_span" | "ctor" | "map_handler" | "map_with" | "map_span" | "map") => vec!["C12"],
        (_, "CtxGuard", "reset" | "process_ret" | "try_mat" | "drop") => vec!["C01", "C02"],
        _ => vec![],
    };
    Some(r)
}

fn rule_of<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    let item = f.item.clone();
    let label = format!("{} {}", f.adt, item);
    match (f.tr.as_str(), f.adt.as_str(), item.as_str()) {
        ("Context", "RegexCtx", _) if !f.in_trait => {
            let mut r = Rule::new(P, &label, move |o| regex_ctx(o, &item));
            r.may_panic = |n| n.contains("overflow");
            Some(r)
        }
        ("Context", "PolicyCtx", _) if !f.in_trait => {
            let a = at(cx, st, args.first()?, *cx.root_args.first()?)?;
            Some(Rule::new(P, &label, move |o| policy_ctx(o, &a, &item)))
        }
        ("", "RegexCtx", "new" | "with_offset" | "with_dat" | "reset_with" | "reset" | "offset" | "dat") => Some(Rule::new(P, &label, move |o| builder(o, &item))),
        ("", "RegexCtx", "with") => Some(Rule::new(P, &label, move |o| {
            let Some(r) = o.one(&[EvK::CallFn], "the function runs once")? else { return Ok(()) };
            let t = o.m.tys[0];
            let _ = t;
            let Some(c) = r.args.first().cloned() else { return o.undecided("argument") };
            let d = o.arg(1);
            // the context type is the function's argument type
            if let Val::Agg(_, f) = &c {
                o.cx.obligation("argument");
                let (mut p, mut x) = (None, None);
                for v in f.iter() {
                    match v {
                        Val::Lin(l) => p = Some(l.clone()),
                        v => x = Some(v.clone()),
                    }
                }
                if !p.is_some_and(|p| o.eq(&p, &Lin::k(0))) {
                    o.bad("the context does not start at the beginning");
                }
                if !x.is_some_and(|x| o.same(&x, &d)) {
                    o.bad("the context is about another text");
                }
            }
            o.want_same(&o.ret.clone(), &r.res, "another result is returned");
            Ok(())
        })),
        (_, "CtxGuard", _) => guard(cx, st, f, args, &label),
        ("Match", _, "is_mat") if f.in_trait => {
            let a = at(cx, st, args.first()?, *cx.root_args.first()?)?;
            Some(Rule::new(E, "is_mat", move |o| {
                let Some(r) = o.one(&[EvK::Mat], "one match")? else { return Ok(()) };
                ran(o, &a, &r, 2);
                o.want_bool(r.ok == Some(true), "outcome of the match")
            }))
        }
        ("Regex", _, "parse") if f.in_trait => Some(Rule::new(E, "parse", move |o| {
            let Some(r) = o.one(&[EvK::Parse], "one match")? else { return Ok(()) };
            let (s, a) = (o.argv(1), o.arg(1));
            o.cx.obligation("argument");
            if !o.same(&r.subj, &s) && !o.same(&r.subj, &a) {
                o.bad("another pattern is matched");
            }
            o.want_bool(r.ok == Some(true), "outcome of the match")
        })),
        ("Assert", _, "assert" | "try_assert") => {
            let a = at(cx, st, args.first()?, *cx.root_args.first()?).or_else(|| None)?;
            let b = item == "assert";
            // a pattern that does not match may leave the position anywhere
            cx.weak.set(true);
            Some(Rule::new(E, &item.clone(), move |o| {
                let Some(r) = o.one(&[EvK::Mat], "one match")? else { return Ok(()) };
                ran(o, &a, &r, 2);
                a.want_pos(o, &a.off, "an assertion moves the position")?;
                let ok = r.ok == Some(true);
                if b { o.want_bool(ok, "outcome of the assertion") } else { o.want_ok(&Val::bool(ok), "outcome of the assertion") }
            }))
        }
        ("PolicyMatch", _, "try_mat_before" | "try_mat_after") => {
            let a = at(cx, st, args.first()?, *cx.root_args.first()?)?;
            let before = item == "try_mat_before";
            Some(Rule::new("C14", &label, move |o| parts(o, &a, if before { &[3, 2] } else { &[2, 3] }, 2)))
        }
        ("MatchExt", _, _) => {
            let a = at(cx, st, args.first()?, *cx.root_args.first()?)?;
            match item.as_str() {
                "ctor_handler" | "ctor_with" | "ctor_span" | "ctor" => Some(Rule::new(E, &item.clone(), move |o| {
                    let Some(r) = o.one(&[EvK::Cons], "one construction")? else { return Ok(()) };
                    ran(o, &a, &r, 2);
                    if o.m.args.len() > 2 {
                        let h = o.arg(3);
                        let h = o.cx.peel_val(o.st, &h);
                        o.want_same(&r.args[0].clone(), &h, "another handler is used");
                    }
                    o.want_outcome(&r, "construction")
                })),
                "map_handler" | "map_with" | "map_span" | "map" => Some(Rule::new(E, &item.clone(), move |o| map_entry(o, &a, &item))),
                _ => None,
            }
        }
        ("Handler", "", "invoke") if !f.in_trait => {
            let a = at(cx, st, args.get(1)?, *cx.root_args.get(1)?);
            Some(Rule::new(E, "function as handler", move |o| {
                let Some(r) = o.one(&[EvK::CallFn], "the function runs once")? else { return Ok(()) };
                o.cx.obligation("argument");
                let s = o.argv(3);
                let ok = r.args.len() == 2 && o.same(&r.args[1], &s);
                if !ok {
                    o.bad("the function gets another span");
                }
                if let Some(a) = &a {
                    a.here(o, &r);
                }
                o.want_same(&o.ret.clone(), &r.res, "another result is returned");
                Ok(())
            }))
        }
        ("Handler", "Extract", "invoke") => {
            let a = at(cx, st, args.get(1)?, *cx.root_args.get(1)?)?;
            Some(Rule::new(E, &format!("extract {}", cx.root_ret), move |o| extract(o, &a)))
        }
        ("NeuCond", "", "check") if !f.in_trait => Some(Rule::new(E, "function as condition", |o| {
            let Some(r) = o.one(&[EvK::CallFn], "the function runs once")? else { return Ok(()) };
            let s = o.argv(3);
            o.cx.obligation("argument");
            if !r.args.get(1).is_some_and(|x| o.same(x, &s)) {
                o.bad("the function gets another item");
            }
            let t = o.cx.root_ret;
            if o.same(&o.ret.clone(), &r.res) {
                return Ok(());
            }
            let (k, x) = o.case(&r.res, t)?;
            let (rk, rx) = o.ret_case()?;
            if k != rk || !o.same(&o.f0(&x), &o.f0(&rx)) {
                o.bad("another result is returned");
            }
            Ok(())
        })),
        ("NeuCond", "EmptyCond", "check") => Some(Rule::new(E, "empty condition", |o| o.want_ok(&Val::bool(true), "a condition that always holds"))),
        ("NeuCond", "RegexCond", "check") => {
            let a = at(cx, st, args.get(1)?, *cx.root_args.get(1)?)?;
            Some(Rule::new(E, "pattern as condition", move |o| regex_cond(o, &a)))
        }
        _ => None,
    }
}

/// the event is about the pattern in argument `p`, at the position of entry
fn ran<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>, r: &Rec<'tcx>, p: usize) {
    o.cx.obligation("argument");
    let (s, q) = (o.argv(p), o.arg(p));
    if !o.same(&r.subj, &s) && !o.same(&r.subj, &q) {
        o.bad("another pattern is run");
    }
    if !r.at.as_ref().is_some_and(|x| o.eq(x, &a.off)) {
        o.bad("the pattern is run at another position");
    }
    a.here(o, r);
}

/// patterns run one after another; the result is the span of pattern `main`
fn parts<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>, order: &[usize], main: usize) -> R<()> {
    let l = o.only(&[EvK::Parse, EvK::Mat]);
    let mut cur = a.off.clone();
    let mut span = None;
    for (n, p) in order.iter().enumerate() {
        o.cx.obligation("call");
        let Some(r) = l.get(n) else {
            o.bad(format!("only {n} of {} parts are run", order.len()));
            return Ok(());
        };
        let (s, q) = (o.argv(*p), o.arg(*p));
        if !o.same(&r.subj, &s) && !o.same(&r.subj, &q) {
            o.bad("the parts run in another order");
            return Ok(());
        }
        if !r.at.as_ref().is_some_and(|x| o.eq(x, &cur)) {
            o.bad("a part is run at another position");
        }
        if r.ok != Some(true) {
            if l.len() > n + 1 {
                o.bad("something is run after a part failed");
            }
            a.want_pos(o, &a.off, "a failure moves the position")?;
            return o.want_outcome(r, "failed part");
        }
        if let Val::Agg(_, f) = &r.res {
            cur = f.iter().filter_map(|x| x.lin()).fold(Lin::k(0), |s, x| s.add(x));
        }
        if *p == main {
            span = Some(r.res.clone());
        }
    }
    if l.len() > order.len() {
        o.bad("more is run than the parts");
    }
    a.want_pos(o, &cur, "the position is not the end of the last part")?;
    match span {
        Some(s) => o.want_ok(&s, "span of the pattern"),
        None => Ok(()),
    }
}

fn regex_ctx<'tcx>(o: &mut O<'_, 'tcx>, item: &str) -> R<()> {
    let t = o.me_ty();
    let me = o.argv(1);
    let (d, is_str) = dat(o, &me, t)?;
    let off = pos(o, &me, t);
    let len = o.cx.seq_len(o.st, &d);
    let a2 = |o: &O<'_, 'tcx>| o.cx.to_lin(&o.arg(2));
    match item {
        "len" => {
            o.want_lin(&len, "not the length of the text");
            Ok(())
        }
        "is_empty" => {
            let e = o.is(Atom::Eq(len))?;
            o.want_bool(e, "emptiness of the text")
        }
        "offset" => {
            o.want_lin(&off, "not the position");
            Ok(())
        }
        "set_offset" | "inc" | "dec" => {
            let x = a2(o);
            let want = match item {
                "set_offset" => x,
                "inc" => off.add(&x),
                _ => off.sub(&x),
            };
            let now = o.now(1);
            want_ctx(o, &now, t, &Val::Ref(d), &want, item);
            o.want_self("another context is returned");
            Ok(())
        }
        "peek" | "peek_at" | "orig" | "orig_at" | "orig_sub" | "clone_at" => {
            let b = if o.m.args.len() > 1 { a2(o) } else { off };
            let e = if item == "orig_sub" { b.add(&o.cx.to_lin(&o.arg(3))) } else { len };
            let Some(v) = o.part(&d, is_str, &b, &e)? else { return o.want_err("OutOfBound", "the part does not exist") };
            match item {
                "orig" | "orig_at" | "orig_sub" => o.want_ok(&v, "part of the text"),
                "clone_at" => {
                    let (k, x) = o.ret_case()?;
                    if k != 0 {
                        o.cx.obligation("value");
                        o.bad("the part exists, but it fails");
                        return Ok(());
                    }
                    want_ctx(o, &o.f0(&x), t, &v, &Lin::k(0), "context over the rest");
                    Ok(())
                }
                _ => {
                    let (k, x) = o.ret_case()?;
                    o.cx.obligation("value");
                    if k != 0 {
                        o.bad("the part exists, but it fails");
                        return Ok(());
                    }
                    let x = o.f0(&x);
                    if let Val::Agg(_, f) = &x {
                        // index iterator of the crate: starts at the first element
                        for y in f.iter() {
                            match y {
                                Val::Lin(l) if !o.eq(l, &Lin::k(0)) => o.bad("the iteration does not start at the first element"),
                                Val::Ref(_) if !o.same(y, &v) => o.bad("another part is iterated"),
                                _ => {}
                            }
                        }
                        return Ok(());
                    }
                    match o.app_of(&x) {
                        Some((h, a)) if h.ends_with("char_indices") && a.len() == 1 => {
                            if !o.same(&a[0], &v) && !o.same(&a[0], &o.cx.peel_val(o.st, &v)) {
                                o.bad("another part is iterated");
                            }
                            Ok(())
                        }
                        _ => o.undecided("iterator"),
                    }
                }
            }
        }
        _ => o.undecided("no rule"),
    }
}

fn policy_ctx<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>, item: &str) -> R<()> {
    let a2 = |o: &O<'_, 'tcx>| o.cx.to_lin(&o.arg(2));
    match item {
        "len" => {
            o.want_lin(&a.len, "not the length of the wrapped context");
            Ok(())
        }
        "is_empty" => {
            let e = o.is(Atom::Eq(a.len.clone()))?;
            o.want_bool(e, "emptiness of the wrapped context")
        }
        "offset" => {
            o.want_lin(&a.off, "not the position of the wrapped context");
            Ok(())
        }
        "set_offset" | "inc" | "dec" => {
            let x = a2(o);
            let want = match item {
                "set_offset" => x,
                "inc" => a.off.add(&x),
                _ => a.off.sub(&x),
            };
            a.want_pos(o, &want, "the wrapped context is moved elsewhere")?;
            o.want_self("another context is returned");
            Ok(())
        }
        "peek" | "peek_at" | "orig" | "orig_at" | "orig_sub" => {
            let b = if o.m.args.len() > 1 { a2(o) } else { a.off.clone() };
            let k = if item.starts_with("peek") { EvK::Peek } else { EvK::Orig };
            if o.only(&[k]).is_empty() && !item.starts_with("peek") {
                // the bound was checked first
                let n = if item == "orig_sub" { o.cx.to_lin(&o.arg(3)) } else { Lin::k(0) };
                if !o.is(Atom::Ge(a.len.sub(&b).sub(&n)))? {
                    return o.want_err("OutOfBound", "the part does not exist");
                }
            }
            let Some(r) = o.one(&[k], "one access to the wrapped context")? else { return Ok(()) };
            o.cx.obligation("argument");
            if !r.at.as_ref().is_some_and(|x| o.eq(x, &b)) {
                o.bad("another position is read");
            }
            if k == EvK::Orig {
                let n = if item == "orig_sub" { o.cx.to_lin(&o.arg(3)) } else { a.len.sub(&b) };
                if !r.args.get(1).and_then(|x| x.lin()).is_some_and(|x| o.eq(x, &n)) {
                    o.bad("another length is read");
                }
            }
            o.want_outcome(&r, "outcome of the wrapped context")
        }
        "clone_at" => {
            let b = a2(o);
            let l: Vec<_> = o.log().into_iter().filter(|r| &*r.name == "clone_at").collect();
            if l.len() > 1 {
                o.bad("more than one copy of the wrapped context is made");
                return Ok(());
            }
            if l.len() != 1 {
                return o.undecided("copy of the wrapped context");
            }
            o.cx.obligation("value");
            if !l[0].at.as_ref().is_some_and(|x| o.eq(x, &b)) {
                o.bad("copied at another position");
            }
            let (k, x) = o.ret_case()?;
            if (k == 0) != (l[0].ok == Some(true)) {
                o.bad("the outcome is turned around");
            } else if k == 1 {
                let x = o.f0(&x);
                if !o.same(&x, &l[0].res) && !o.conv(&x, &l[0].res) {
                    o.bad("another error than the wrapped context's");
                }
            }
            if k == 0 {
                let t = o.me_ty();
                let x = o.f0(&x);
                for (i, ft) in o.cx.variant_fields(t, 0).into_iter().enumerate() {
                    let v = o.fld(&x, t, i);
                    let own = o.fld(&o.argv(1), t, i);
                    let want = if o.cx.is_ctx_ty(ft) { "clone_at" } else { "clone" };
                    match o.app_of(&v) {
                        Some((h, a)) if h.ends_with(want) => {
                            if !a.first().is_some_and(|z| o.same(z, &own) || want == "clone_at") {
                                o.bad("a copy of something else");
                            }
                        }
                        _ if o.same(&v, &own) && want == "clone" => {}
                        _ => return o.undecided("copy"),
                    }
                }
            }
            Ok(())
        }
        _ => o.undecided("no rule"),
    }
}

fn builder<'tcx>(o: &mut O<'_, 'tcx>, item: &str) -> R<()> {
    let r = o.ret.clone();
    if item == "new" {
        let (t, d) = (o.cx.root_ret, o.arg(1));
        want_ctx(o, &r, t, &d, &Lin::k(0), "new context");
        return Ok(());
    }
    let t = o.me_ty();
    let me = o.argv(1);
    let i = o.ix(t, |x| x.is_ref()).unwrap_or(0);
    let (d, off) = (o.fld(&me, t, i), pos(o, &me, t));
    match item {
        "offset" => o.want_lin(&off, "not the position"),
        "dat" => o.want_same(&r, &d, "not the text"),
        "with_offset" => {
            let x = o.cx.to_lin(&o.arg(2));
            want_ctx(o, &r, t, &d, &x, item);
        }
        "with_dat" => {
            let x = o.arg(2);
            want_ctx(o, &r, t, &x, &off, item);
        }
        "reset_with" => {
            let (x, now) = (o.arg(2), o.now(1));
            want_ctx(o, &now, t, &x, &Lin::k(0), item);
            o.want_self("another context is returned");
        }
        _ => {
            let now = o.now(1);
            want_ctx(o, &now, t, &d, &Lin::k(0), item);
            o.want_self("another context is returned");
        }
    }
    Ok(())
}

/// How a guard remembers where it began and whether something failed: a number, and a flag that a new guard
/// has in one position (or an optional position that a new guard leaves empty).
#[derive(Clone, Copy)]
struct Guard {
    beg: usize,
    flag: Option<usize>,
    /// the flag's value in a new guard; an optional position when there is none
    calm: Option<bool>,
}
impl Guard {
    fn of<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>) -> Option<Guard> {
        let fs = cx.variant_fields(t, 0);
        let only = |f: &dyn Fn(Ty<'tcx>) -> bool| {
            let mut l = fs.iter().enumerate().filter(|(_, x)| f(**x)).map(|x| x.0);
            match (l.next(), l.next()) {
                (Some(i), None) => Some(i),
                _ => None,
            }
        };
        let beg = only(&|x| x.is_usize())?;
        let opt = only(&|x| cx.adt_name(x) == "Option" && matches!(x.kind(), ty::Adt(_, a) if a.type_at(0).is_usize()));
        Some(match (only(&|x| x.is_bool()), opt) {
            (Some(flag), None) => {
                let calm = initial(cx, t, flag);
                Guard { beg, flag: calm.map(|_| flag), calm }
            }
            (None, Some(flag)) => Guard { beg, flag: Some(flag), calm: None },
            _ => Guard { beg, flag: None, calm: None },
        })
    }
    fn beg<'tcx>(&self, o: &O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> Lin {
        o.cx.to_lin(&o.fld(v, t, self.beg))
    }
    /// does dropping this guard rewind, by what it remembers?
    fn armed<'tcx>(&self, o: &mut O<'_, 'tcx>, v: &Val<'tcx>, t: Ty<'tcx>, made: bool) -> R<bool> {
        let Some(flag) = self.flag else { return o.undecided("how a guard remembers a failure") };
        let x = o.fld(v, t, flag);
        if let Some(calm) = self.calm {
            return Ok(o.truth(&x)? != calm);
        }
        let ft = o.cx.variant_fields(t, 0)[flag];
        let (k, x) = o.case(&x, ft)?;
        if k == 1 {
            let (to, beg) = (o.cx.to_lin(&o.f0(&x)), self.beg(o, v, t));
            if made {
                if !o.eq(&to, &beg) {
                    o.bad("not rewound to the remembered position");
                }
            } else {
                // what every operation leaves behind
                o.st.facts.add(&Atom::Eq(to.sub(&beg)), &o.cx.tm);
            }
        }
        Ok(k == 1)
    }
}

/// the constant that `new` puts into a field
fn initial<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>, i: usize) -> Option<bool> {
    use rustc_middle::mir;
    let tcx = cx.tcx;
    let ty::Adt(d, _) = t.kind() else { return None };
    let of = |x: &mir::Operand<'tcx>| match x {
        mir::Operand::Constant(c) => c.const_.try_to_bool(),
        _ => None,
    };
    let new = tcx
        .inherent_impls(d.did())
        .iter()
        .flat_map(|x| tcx.associated_items(*x).in_definition_order())
        .find(|x| x.name().as_str() == "new" && tcx.is_mir_available(x.def_id))?;
    let b = tcx.optimized_mir(new.def_id);
    let assigned = || {
        b.basic_blocks.iter().flat_map(|x| &x.statements).filter_map(|s| match &s.kind {
            mir::StatementKind::Assign(a) => Some((a.0, &a.1)),
            _ => None,
        })
    };
    let (_, f) = assigned().find_map(|(_, r)| match r {
        mir::Rvalue::Aggregate(k, f) => match **k {
            mir::AggregateKind::Adt(a, ..) if a == d.did() => Some(((), f)),
            _ => None,
        },
        _ => None,
    })?;
    let x = f.iter().nth(i)?;
    of(x).or_else(|| {
        let at = x.place()?;
        assigned().find_map(|(p, r)| match r {
            mir::Rvalue::Use(y, ..) if p == at => of(y),
            _ => None,
        })
    })
}

fn guard<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], label: &str) -> Option<Rule<'tcx>> {
    let item = f.item.clone();
    if item == "new" {
        let a = at(cx, st, args.first()?, *cx.root_args.first()?)?;
        return Some(Rule::new(P, label, move |o| {
            let t = o.cx.root_ret;
            let r = o.ret.clone();
            o.cx.obligation("value");
            let Some(g) = Guard::of(o.cx, t) else { return o.undecided("what a guard remembers") };
            let p = g.beg(o, &r, t);
            if !o.eq(&p, &a.off) {
                o.bad("the guard remembers another position");
            }
            if g.armed(o, &r, t, true)? {
                o.bad("a new guard already rewinds");
            }
            let c = o.ix(t, |x| x.is_ref()).unwrap_or(0);
            let (c, w) = (o.fld(&r, t, c), o.arg(1));
            o.want_same(&c, &w, "the guard is about another context");
            a.want_pos(o, &a.off, "making a guard moves the position")
        }));
    }
    let t = cx.peel(*cx.root_args.first()?);
    let me = cx.peel_val(st, args.first()?);
    let (ci, ct) = cx.variant_fields(t, 0).into_iter().enumerate().find(|(_, x)| x.is_ref())?;
    let c = cx.project(&me, &PE::Field(0, ci as u32, ct));
    let a = at(cx, st, &c, ct)?;
    let known = ["beg", "end", "len", "is_empty", "ctx", "inc", "peek", "peek_at", "reset", "process_ret", "try_mat", "drop"];
    if !known.contains(&item.as_str()) {
        return None;
    }
    let mut r = Rule::new(P, label, move |o| {
        let t = o.me_ty();
        let me = o.argv(1);
        let Some(g) = Guard::of(o.cx, t) else { return o.undecided("what a guard remembers") };
        let beg = g.beg(o, &me, t);
        let judged = matches!(item.as_str(), "process_ret" | "try_mat" | "drop");
        let was = (judged || g.flag.is_some()) && g.armed(o, &me, t, false)?;
        // every operation keeps the remembered position
        let now = o.now(1);
        if matches!(now, Val::Agg(..) | Val::Sym(..)) {
            o.cx.obligation("state");
            let p = g.beg(o, &now, t);
            if !o.eq(&p, &beg) {
                o.bad("the remembered position changes");
            }
        }
        let is = match item.as_str() {
            "drop" => was,
            _ if g.flag.is_none() => was,
            _ => g.armed(o, &now, t, true)?,
        };
        if !judged && g.flag.is_some() && matches!(now, Val::Agg(..)) {
            o.cx.obligation("state");
            if was != is {
                o.bad("whether a failure went through the guard is forgotten or made up");
            }
        }
        match item.as_str() {
            "beg" => o.want_lin(&beg, "not the remembered position"),
            "end" => o.want_lin(&a.off, "not the current position"),
            "len" => o.want_lin(&a.len, "not the length of the input"),
            "is_empty" => {
                let e = o.is(Atom::Eq(a.len.clone()))?;
                o.want_bool(e, "emptiness of the input")?;
            }
            "ctx" => {
                let r = o.ret.clone();
                o.want_same(&r, &a.v, "another context");
            }
            "inc" => {
                let n = o.cx.to_lin(&o.arg(2));
                a.want_pos(o, &a.off.add(&n), "moved by another amount")?;
                let r = o.ret.clone();
                if let Val::Agg(_, f) = &r {
                    let l: Vec<_> = f.iter().filter_map(|x| x.lin().cloned()).collect();
                    o.cx.obligation("value");
                    let rt = o.cx.root_ret;
                    let (bi, li) = o.cx.span_ix();
                    let g = |o: &O<'_, 'tcx>, i: usize| {
                        o.cx.to_lin(&o.fld(&r, rt, i))
                    };
                    let _ = l;
                    if !o.eq(&g(o, bi), &beg) || !o.eq(&g(o, li), &n) {
                        o.bad("not the span from the remembered position");
                    }
                }
            }
            "peek" | "peek_at" => {
                let b = if item == "peek" { a.off.clone() } else { o.cx.to_lin(&o.arg(2)) };
                let Some(r) = o.one(&[EvK::Peek], "one look at the input")? else { return Ok(()) };
                o.cx.obligation("argument");
                if !r.at.as_ref().is_some_and(|x| o.eq(x, &b)) {
                    o.bad("another position is read");
                }
                o.want_outcome(&r, "items of the input")?;
            }
            "reset" => {
                a.want_pos(o, &beg, "not rewound to the remembered position")?;
                o.want_self("another guard is returned");
            }
            "process_ret" => {
                let (r, w) = (o.ret.clone(), o.arg(2));
                let rt = o.cx.root_ret;
                let (k, x) = o.case(&w, rt)?;
                let (rk, rx) = o.case(&r, rt)?;
                o.cx.obligation("value");
                if k != rk || !o.same(&o.f0(&x), &o.f0(&rx)) {
                    o.bad("the result is changed");
                }
                if is != (was || k == 1) {
                    o.bad(if k == 1 { "a failure does not rewind" } else { "a success rewinds" });
                }
            }
            "try_mat" => {
                let Some(r) = o.one(&[EvK::Mat], "one match")? else { return Ok(()) };
                ran(o, &a, &r, 2);
                let ok = r.ok == Some(true);
                if is != (was || !ok) {
                    o.bad(if ok { "a success rewinds" } else { "a failure does not rewind" });
                }
                o.want_outcome(&r, "outcome of the match")?;
            }
            _ => {
                let want = if was { &beg } else { &a.off };
                a.want_pos(o, want, if was { "not rewound to the remembered position" } else { "rewound without a failure" })?;
            }
        }
        Ok(())
    });
    r.may_panic = |n| n.contains("overflow");
    Some(r)
}

/// match, then hand the span (or its text) over
fn map_entry<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>, item: &str) -> R<()> {
    let l = o.only(&[EvK::Mat, EvK::Invoke, EvK::CallFn, EvK::MapCall, EvK::Orig]);
    let Some(m) = l.first().filter(|r| r.k == EvK::Mat as u32) else {
        o.cx.obligation("call");
        o.bad("nothing is matched first");
        return Ok(());
    };
    ran(o, a, m, 2);
    if l.iter().skip(1).any(|r| r.k == EvK::Mat as u32) {
        o.bad("more than one match");
    }
    if m.ok != Some(true) {
        if l.len() > 1 {
            o.bad("something is run after the match failed");
        }
        return o.want_outcome(m, "failed match");
    }
    let span = m.res.clone();
    o.cx.obligation("argument");
    let mut rest = &l[1..];
    let mut val = span.clone();
    if item == "map" {
        let Some(r) = rest.first().filter(|r| r.k == EvK::Orig as u32) else {
            if o.log().iter().any(|r| r.k == EvK::Opaque as u32) {
                return o.undecided("how the text is read");
            }
            o.bad("the matched text is not read");
            return Ok(());
        };
        rest = &rest[1..];
        let Val::Agg(_, f) = &span else { return o.undecided("span") };
        let same = r.args.len() == 2 && f.len() == 2 && {
            let (b, n) = o.cx.span_ix();
            o.same(&f[b], &r.args[0]) && o.same(&f[n], &r.args[1])
        };
        if !same {
            o.bad("another part of the input is read");
        }
        a.here(o, r);
        if r.ok != Some(true) {
            if !rest.is_empty() {
                o.bad("something is run after a failure");
            }
            return o.want_outcome(r, "unreadable text");
        }
        val = r.res.clone();
    }
    let Some(h) = rest.first() else {
        o.bad("the matched text is not handed over");
        return Ok(());
    };
    if rest.len() > 1 {
        o.bad("the matched text is handed over twice");
    }
    let handler = h.k != EvK::MapCall as u32;
    if handler == (item == "map" || item == "map_span") {
        o.bad("handed to something else");
        return Ok(());
    }
    let (got, want) = if h.k == EvK::CallFn as u32 { (h.args.get(1).cloned(), span) } else { (h.args.first().cloned(), if handler { span } else { val }) };
    if !got.is_some_and(|g| o.same(&g, &want)) {
        o.bad("another span or text is handed over");
    }
    let hv = o.arg(3);
    let hv = o.cx.peel_val(o.st, &hv);
    if !o.same(&h.subj, &hv) {
        o.bad("another handler is used");
    }
    if handler {
        a.here(o, h);
        let end = a.now(o)?;
        if let Some(x) = &h.at {
            if !o.eq(x, &end) {
                o.bad("the position moves after the match");
            }
        }
    }
    if h.k == EvK::CallFn as u32 {
        let t = o.cx.root_ret;
        let (k, x) = o.case(&h.res, t)?;
        let (rk, rx) = o.ret_case()?;
        if k != rk || !o.same(&o.f0(&x), &o.f0(&rx)) {
            o.bad("another result is returned");
        }
        return Ok(());
    }
    o.want_outcome(h, "handled match")
}

/// what the standard handler makes of a span
fn extract<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>) -> R<()> {
    let Some((out, _)) = o.cx.is_result(o.cx.root_ret) else { return o.undecided("result") };
    let s = o.argv(3);
    if o.cx.is_span(out) {
        return o.want_ok(&s, "the span itself");
    }
    if out.is_unit() {
        return o.want_ok(&Val::unit(), "nothing");
    }
    let Some(r) = o.one(&[EvK::Orig], "the text is read once")? else { return Ok(()) };
    o.cx.obligation("argument");
    a.here(o, &r);
    let t = o.cx.peel(o.m.tys[2]);
    let (bi, li) = o.cx.span_ix();
    let g = |o: &O<'_, 'tcx>, i: usize| {
        o.cx.to_lin(&o.fld(&s, t, i))
    };
    let (b, n) = (g(o, bi), g(o, li));
    let ok = r.args.len() == 2 && r.args[0].lin().is_some_and(|x| o.eq(x, &b)) && r.args[1].lin().is_some_and(|x| o.eq(x, &n));
    if !ok {
        o.bad("another part of the input is read");
    }
    if r.ok == Some(true) && !out.is_ref() {
        let (k, x) = o.ret_case()?;
        if k != 0 {
            o.bad("the text exists, but it fails");
            return Ok(());
        }
        let x = o.f0(&x);
        return match o.app_of(&x) {
            Some((h, f)) if ["::from", "::into", "to_string", "to_owned"].iter().any(|e| h.ends_with(e)) && f.len() == 1 => {
                let w = o.cx.peel_val(o.st, &r.res);
                if !o.same(&f[0], &r.res) && !o.same(&f[0], &w) {
                    o.bad("a copy of another text");
                }
                Ok(())
            }
            _ => o.undecided("copy of the text"),
        };
    }
    o.want_outcome(&r, "the text of the span")
}

/// a pattern used as condition looks at the input from the item on, in a copy
fn regex_cond<'tcx>(o: &mut O<'_, 'tcx>, a: &At<'tcx>) -> R<()> {
    let item = o.argv(3);
    let it = o.cx.peel(o.m.tys[2]);
    let ix = match it.kind() {
        ty::Tuple(l) => o.cx.to_lin(&o.cx.project(&item, &PE::Field(0, 0, l[0]))),
        _ => return o.undecided("item"),
    };
    a.want_pos(o, &a.off.clone(), "a condition moves the position")?;
    let l: Vec<_> = o.log().into_iter().filter(|r| &*r.name == "clone_at").collect();
    o.cx.obligation("argument");
    let m = o.only(&[EvK::Mat, EvK::Parse]);
    if l.len() == 1 {
        if !l[0].at.as_ref().is_some_and(|x| o.eq(x, &a.off.add(&ix))) {
            o.bad("the condition looks at another position");
        }
        if l[0].ok != Some(true) {
            if !m.is_empty() {
                o.bad("something is matched although there is no such position");
            }
            let (k, x) = o.ret_case()?;
            let x = o.f0(&x);
            if k != 1 {
                o.bad("there is no such position, but it succeeds");
            } else if !o.same(&x, &l[0].res) && !o.conv(&x, &l[0].res) {
                o.bad("another error than the one of the position");
            }
            return Ok(());
        }
    } else {
        return o.undecided("copy of the context");
    }
    if m.len() != 1 || m[0].k != EvK::Mat as u32 {
        o.bad(format!("{} matches instead of one", m.len()));
        return Ok(());
    }
    if !m[0].at.as_ref().is_some_and(|x| o.eq(x, &Lin::k(0))) {
        o.bad("matched at another position");
    }
    let t = o.me_ty();
    let i = o.ix(t, |x| matches!(x.kind(), ty::Param(_))).unwrap_or(0);
    let p = o.fld(&o.argv(1), t, i);
    if !o.same(&m[0].subj, &p) {
        o.bad("another pattern is matched");
    }
    o.want_ok(&Val::bool(m[0].ok == Some(true)), "outcome of the condition")
}
