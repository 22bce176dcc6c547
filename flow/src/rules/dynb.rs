//! Patterns built while matching (into_regex_builder), recursive patterns, literals.
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};

pub fn rule<'tcx>(_cx: &Cx<'tcx>, _st: &mut State<'tcx>, f: &Fun<'tcx>, args: &[Val<'tcx>], _me: &Val<'tcx>) -> Option<Rule<'tcx>> {
    match (f.tr.as_str(), f.item.as_str()) {
        (_, "into_regex_builder") if args.len() == 2 && !f.in_trait => {
            let mut r = Rule::new("C09", "pattern built from a match", dynamic);
            r.also = vec!["C01", "C03", "C14"];
            Some(r)
        }
        ("" | "RecursiveParser" | "RecursiveParserSync", "rec_parser" | "rec_parser_sync" | "build" | "build_with") if args.len() == 1 && !f.in_trait => {
            let mut r = Rule::new("C29", "recursive pattern", recursive);
            r.may_panic = |_| true;
            r.echo = vec!["C22"];
            Some(r)
        }
        ("LiteralTy", "length") if !f.in_trait => {
            let t = f.me?;
            Some(Rule::new("C19", &format!("length of {t}"), move |o| {
                let Some(p) = o.seq_ptr(&o.arg(1), t) else { return o.undecided("length") };
                let l = o.cx.seq_len(o.st, &p);
                o.want_lin(&l, "not the length of the literal");
                Ok(())
            }))
        }
        ("LiteralTy", "prefix_of") if !f.in_trait => {
            let t = f.me?;
            Some(Rule::new("C19", &format!("prefix of {t}"), prefix_of))
        }
        _ => None,
    }
}

fn prefix_of<'tcx>(o: &mut O<'_, 'tcx>) -> R<()> {
    let l: Vec<_> = o.log().into_iter().filter(|r| r.name.ends_with("starts_with")).collect();
    o.cx.obligation("call");
    if l.is_empty() {
        // no comparison is needed when the literal is longer than the text
        let (me, hay) = (o.cx.peel_val(o.st, &o.arg(1)), o.cx.peel_val(o.st, &o.arg(2)));
        let (n, m) = (o.cx.seq_len_of(o.st, &me), o.cx.seq_len_of(o.st, &hay));
        if o.st.facts.entails(&o.cx.tm, &Atom::Ge(n.sub(&m).addk(-1))) {
            return o.want_bool(false, "prefix");
        }
    }
    if l.len() != 1 {
        return o.undecided("how the prefix is recognised");
    }
    let r = &l[0];
    let text = |o: &O<'_, 'tcx>, v: &Val<'tcx>| {
        let mut v = o.cx.peel_val(o.st, v);
        for _ in 0..4 {
            match o.app_of(&v) {
                Some((h, a)) if a.len() == 1 && matches!(&*h, "deref" | "*") => v = o.cx.peel_val(o.st, &a[0]),
                Some((h, a)) if a.len() == 1 && ["as_str", "as_ref", "as_slice", "deref", "borrow", "as_bytes"].iter().any(|n| h.ends_with(n)) => {
                    v = o.cx.peel_val(o.st, &a[0])
                }
                _ => break,
            }
        }
        v
    };
    let (hay, lit) = (text(o, &r.args[0]), text(o, &r.args[1]));
    let (me, other) = (text(o, &o.arg(1)), text(o, &o.arg(2)));
    if o.same(&hay, &me) && o.same(&lit, &other) {
        o.bad("the literal is searched for the input instead of the other way round");
        return Ok(());
    }
    if !o.same(&hay, &other) || !o.same(&lit, &me) {
        let m = |v: &Val<'tcx>, w: &Val<'tcx>| o.cx.mentions(v, w);
        // only a part or a changed form of the text
        let cut = |v: &Val<'tcx>| o.app_of(v).is_some_and(|(h, _)| {
            let h = h.rsplit("::").next().unwrap_or("").to_string();
            h.starts_with("trim") || h.starts_with("to_") && h.ends_with("case") || h.starts_with("replace")
        });
        if cut(&hay) || cut(&lit) {
            o.bad("a changed text is compared");
            return Ok(());
        }
        if m(&hay, &other) && m(&lit, &me) {
            return o.undecided("what is compared");
        }
        o.bad("other texts are compared");
        return Ok(());
    }
    let want = o.truth(&r.res.clone())?;
    o.want_bool(want, "prefix")
}

/// The pattern hands out a place for itself, and that place ends up holding what was made with it.
fn recursive<'tcx>(o: &mut O<'_, 'tcx>) -> R<()> {
    let Some(r) = o.one(&[EvK::CallFn], "the function that makes the pattern is called once")? else { return Ok(()) };
    let ret = o.ret.clone();
    let made = o.log().iter().filter(|r| r.name.ends_with("Rc::new") || r.name.ends_with("Arc::new")).count();
    o.cx.obligation("cell");
    let arg = r.args.first().cloned().unwrap_or(Val::Undef);
    if !o.same(&arg, &ret) || made > 1 {
        o.bad("the pattern handed to the function is not the one returned");
        return Ok(());
    }
    let obj = o.cx.peel_val(o.st, &ret);
    let cell = stored(o, &obj);
    // the function that makes the pattern may have filled the cell it was given
    if cell.is_none() && o.log().iter().any(|r| r.k == EvK::Lock as u32 && r.name.ends_with("::set") && r.ok == Some(false) && o.cx.mentions(&r.subj, &obj)) {
        return Ok(());
    }
    if std::env::var("FLOW_DUMP").is_ok() {
        eprintln!("rec ret {} cell {:?}", o.show(&ret), cell.as_ref().map(|v| o.show(v)));
        for r in o.log() {
            eprintln!("   {} {} {}", r.k, r.name, o.show(&r.res));
        }
    }
    match cell {
        Some(Val::Agg(1, f)) => {
            if !f.first().is_some_and(|v| o.cx.mentions(v, &r.res) || holds(o, v, &r.res)) {
                o.bad("the place holds something else than the pattern made");
            }
        }
        Some(Val::Agg(0, _)) | None => o.bad("the pattern made is not put in its place"),
        _ => return o.undecided("what the place holds"),
    }
    Ok(())
}
fn holds<'tcx>(o: &O<'_, 'tcx>, v: &Val<'tcx>, want: &Val<'tcx>) -> bool {
    o.same(v, want)
        || match v {
            Val::Agg(_, f) => f.iter().any(|x| holds(o, x, want)),
            Val::Ref(p) => matches!(p.root, Root::Loc(..)) && holds(o, &o.cx.load(o.st, p), want),
            _ => o.app_of(v).is_some_and(|(_, a)| a.iter().any(|x| holds(o, x, want))),
        }
}
/// what was put behind the pointer made from `obj`
fn stored<'tcx>(o: &O<'_, 'tcx>, obj: &Val<'tcx>) -> Option<Val<'tcx>> {
    for r in o.log() {
        if r.k == EvK::Lock as u32 && (o.cx.mentions(&r.subj, obj) || o.same(&r.subj, obj)) {
            let once = r.name.contains("once");
            if once && r.ok != Some(true) {
                continue;
            }
            let h = Val::Sym(o.cx.tm.app("deref", vec![r.subj.clone()], false), o.cx.tcx.types.unit);
            let Val::Sym(s, _) = h else { continue };
            let v = o.st.mem.get(&Root::Ext(s)).cloned();
            // a cell that is filled once has no place for the absence of a value
            return if once { v.map(|v| Val::agg(1, vec![v])) } else { v };
        }
    }
    None
}

/// the type behind `impl Trait`
pub fn reveal<'tcx>(cx: &Cx<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    let mut t = cx.subst_ty(t);
    for _ in 0..8 {
        let ty::Alias(_, a) = t.kind() else { break };
        let def_id: DefId = match a.kind {
            ty::AliasTyKind::Opaque { def_id } => def_id.into(),
            ty::AliasTyKind::Projection { def_id } => {
                let d: DefId = def_id.into();
                if !cx.tcx.is_impl_trait_in_trait(d) {
                    break;
                }
                d
            }
            _ => break,
        };
        t = cx.subst_ty(cx.tcx.type_of(def_id).instantiate(cx.tcx, a.args).skip_norm_wip());
    }
    t
}

const CTX: &str = "dctx";

/// match the first pattern, ask for the next one, match that where the context stands then
fn dynamic<'tcx>(o: &mut O<'_, 'tcx>) -> R<()> {
    let cx = o.cx;
    if !o.st.g.contains_key("phase") {
        let mut t = reveal(cx, cx.root_ret);
        let slot = Root::Loc(0, 900_000);
        o.st.mem.insert(slot, o.ret.clone());
        let mut p = Ptr::root(slot);
        for _ in 0..4 {
            if matches!(t.kind(), ty::Closure(..)) {
                break;
            }
            let fs: Vec<_> = cx.variant_fields(t, 0).into_iter().enumerate().filter(|x| cx.adt_name(x.1) != "PhantomData").collect();
            if fs.len() != 1 {
                return o.undecided("the pattern returned");
            }
            p = p.field(0, fs[0].0 as u32, fs[0].1);
            t = reveal(cx, fs[0].1);
        }
        let ty::Closure(cd, ca) = t.kind() else { return o.undecided("the pattern returned") };
        let Some(body) = cx.body(ty::Instance::new_raw(*cd, ca)) else { return o.undecided("closure body") };
        let ct = body.body.local_decls[rustc_middle::mir::Local::from_usize(2)].ty;
        let ctx = cx.mk(cx.tm.intern(SymKind::Arg(90), false), ct);
        let n = Lin::s(cx.tm.fresh("off", true));
        let len = cx.ctx_len(o.st, &ctx, ct)?;
        cx.set_ctx_off(o.st, &ctx, ct, n.clone())?;
        o.st.facts.add(&Atom::Ge(len.sub(&n)), &cx.tm);
        if !o.only(&[EvK::Mat, EvK::Parse, EvK::CallFn]).is_empty() {
            o.bad("something is run while the pattern is built");
        }
        o.st.g.insert("phase", Val::Lin(n));
        o.st.g.insert(CTX, ctx.clone());
        let me = match body.body.local_decls[rustc_middle::mir::Local::from_usize(1)].ty.is_ref() {
            true => Val::Ref(p),
            false => cx.load(o.st, &p),
        };
        return cx.push_frame(o.st, body, vec![me, ctx], None, None);
    }
    let off0 = o.st.g.get("phase").and_then(|v| v.lin().cloned()).unwrap_or_default();
    let Some(ctx) = o.st.g.get(CTX).cloned() else { return o.undecided("context") };
    let Val::Ref(cp) = &ctx else { return o.undecided("context") };
    let ct = match cx.load(o.st, cp) {
        Val::Sym(_, t) => Ty::new_mut_ref(cx.tcx, cx.tcx.lifetimes.re_erased, t),
        _ => return o.undecided("context"),
    };
    let now = cx.ctx_off(o.st, &ctx, ct)?;
    let l = o.only(&[EvK::Mat, EvK::Parse, EvK::CallFn]);
    if o.log().iter().any(|r| r.k == EvK::Opaque as u32 && r.args.iter().any(|a| *a == ctx)) {
        return o.undecided("calls not understood");
    }
    cx.obligation("order");
    cx.obligation("skip policy");
    if l.iter().any(|r| r.k == EvK::Parse as u32) {
        cx.report(o.st, "C14", "a part is matched without the skip policy".into());
    }
    let (v, x) = o.ret.variant().map(|v| (v, o.f0(&o.ret))).ok_or(Stop::Incomplete("undecided: outcome".into()))?;
    let restored = |o: &O<'_, 'tcx>| {
        o.cx.obligation("restore");
        if !o.eq(&now, &off0) {
            o.cx.report(o.st, "C01", "fails without going back to where it began".into());
        }
    };
    let Some(a) = l.first() else {
        o.bad("the first pattern is not matched");
        return Ok(());
    };
    if !matches!(a.k, k if k == EvK::Mat as u32 || k == EvK::Parse as u32) || !o.same(&a.subj, &o.arg(1)) {
        o.bad("something else than the first pattern is run first");
        return Ok(());
    }
    if !a.at.as_ref().is_some_and(|p| o.eq(p, &off0)) {
        o.bad("the first pattern is matched somewhere else");
    }
    let fail = |o: &mut O<'_, 'tcx>, r: &Rec<'tcx>, n: usize, e: Val<'tcx>| {
        if l.len() > n {
            o.bad("goes on after a failure");
        }
        if v != 1 {
            o.bad("succeeds although a part failed");
        } else if !o.same(&x, &e) {
            o.bad("another error is returned");
        }
        let _ = r;
        restored(o);
        Ok(())
    };
    if a.ok != Some(true) {
        return fail(o, a, 1, a.res.clone());
    }
    let Some(b) = l.get(1) else {
        o.bad("no pattern is built from the match");
        return Ok(());
    };
    if b.k != EvK::CallFn as u32 || !o.same(&b.subj, &o.arg(2)) {
        o.bad("something else than the given function follows the first match");
        return Ok(());
    }
    let span = b.args.get(1).map(|s| o.cx.peel_val(o.st, s)).unwrap_or(Val::Undef);
    if !o.same(&span, &a.res) {
        o.bad("the function gets another span than the one matched");
    }
    if !b.at.as_ref().is_none_or(|p| o.eq(p, &a.end(o))) {
        o.bad("the function is called at another position than the end of the match");
    }
    let rt = match &b.res {
        Val::Sym(_, t) => *t,
        _ => cx.tcx.types.unit,
    };
    let (bv, bx) = match b.res.variant() {
        Some(k) => (k, o.f0(&b.res)),
        None => {
            let (k, y) = o.case(&b.res.clone(), rt)?;
            (k, o.f0(&y))
        }
    };
    if bv == 1 {
        return fail(o, b, 2, bx);
    }
    let Some(c) = l.get(2) else {
        o.bad("the pattern built is not matched");
        return Ok(());
    };
    if c.k == EvK::CallFn as u32 || !o.same(&c.subj, &bx) {
        o.bad("something else than the pattern built is matched");
        return Ok(());
    }
    // nothing moves the context between the function and the match
    let log = o.log();
    let i = log.iter().position(|r| r.k == EvK::CallFn as u32).unwrap_or(0);
    if log.iter().skip(i).take_while(|r| r.k != EvK::Mat as u32 && r.k != EvK::Parse as u32).any(|r| r.k == EvK::SetOff as u32) {
        o.bad("the context is moved before the pattern built is matched");
    }
    if c.ok != Some(true) {
        return fail(o, c, 3, c.res.clone());
    }
    if l.len() > 3 {
        o.bad("goes on after the last match");
    }
    cx.obligation("result");
    if v != 0 {
        o.bad("fails although all parts matched");
        return Ok(());
    }
    if !o.same(&x, &c.res) {
        o.cx.report(o.st, "C03", "another span than that of the pattern built is returned".into());
    }
    if !o.eq(&now, &c.end(o)) {
        o.cx.report(o.st, "C03", "the position is not the end of the match".into());
    }
    Ok(())
}
impl<'tcx> Rec<'tcx> {
    /// position after a successful match
    fn end(&self, o: &O<'_, 'tcx>) -> Lin {
        self.post.clone().unwrap_or_else(|| o.cx.to_lin(&Val::Undef))
    }
}
