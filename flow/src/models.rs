//! Calls: closures, modelled library functions, trait contracts, inlining, opaque calls.
use crate::interp::*;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BasicBlock;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};

pub struct CallSite<'a, 'tcx> {
    pub did: DefId,
    pub name: &'a str,
    pub args: GenericArgsRef<'tcx>,
    pub argv: Vec<Val<'tcx>>,
    pub argtys: Vec<Ty<'tcx>>,
    pub dest: Ptr<'tcx>,
    pub dty: Ty<'tcx>,
    pub target: Option<BasicBlock>,
    pub loc: &'a str,
}

impl<'tcx> Cx<'tcx> {
    pub fn finish(&self, st: &mut State<'tcx>, dest: &Ptr<'tcx>, v: Val<'tcx>, target: Option<BasicBlock>) -> R<()> {
        self.assign(st, dest, v)?;
        match target {
            Some(t) => {
                self.goto(st, t);
                Ok(())
            }
            None => match st.frames.last().map(|f| &f.kind) {
                Some(FrameKind::Drain { .. }) => Ok(()),
                _ => Err(Stop::End),
            },
        }
    }

    pub fn call(
        &self,
        st: &mut State<'tcx>,
        fty: Ty<'tcx>,
        fval: Val<'tcx>,
        argv: Vec<Val<'tcx>>,
        argtys: Vec<Ty<'tcx>>,
        dest: Ptr<'tcx>,
        dty: Ty<'tcx>,
        target: Option<BasicBlock>,
        loc: &str,
    ) -> R<()> {
        let f = fndef(fty).or_else(|| if let Val::Fun(t) = &fval { fndef(*t) } else { None });
        match f {
            Some((did, args)) => self.call_def(st, did, args, argv, argtys, dest, dty, target, loc),
            None => self.call_unknown_fn(st, fval, fty, argv, argtys, dest, dty, target, loc),
        }
    }

    pub fn some(&self, v: Val<'tcx>) -> Val<'tcx> {
        Val::agg(1, vec![v])
    }
    pub fn none(&self) -> Val<'tcx> {
        Val::agg(0, vec![])
    }
    pub fn ok(&self, v: Val<'tcx>) -> Val<'tcx> {
        Val::agg(0, vec![v])
    }
    pub fn err(&self, v: Val<'tcx>) -> Val<'tcx> {
        Val::agg(1, vec![v])
    }
    pub fn err_val(&self, tag: &str, t: Ty<'tcx>) -> Val<'tcx> {
        self.fresh(tag, t)
    }

    /// Follow references until a non-reference value is reached.
    pub fn peel_val(&self, st: &State<'tcx>, v: &Val<'tcx>) -> Val<'tcx> {
        let mut v = v.clone();
        for _ in 0..8 {
            match &v {
                Val::Ref(p) => v = self.load(st, p),
                _ => break,
            }
        }
        v
    }
    /// Like `peel_val` but stops at the place of the last reference.
    pub fn peel_ptr(&self, st: &State<'tcx>, v: &Val<'tcx>) -> Option<Ptr<'tcx>> {
        let mut cur = None;
        let mut v = v.clone();
        for _ in 0..8 {
            match &v {
                Val::Ref(p) => {
                    cur = Some(p.clone());
                    v = self.load(st, p);
                }
                _ => break,
            }
        }
        cur
    }

    // ---- contexts --------------------------------------------------------------------
    /// Is `t` a matching context, and where does its position live?
    pub fn is_ctx_ty(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Param(_) => self.implements(t, "Context") || self.implements(t, "Match") || self.is_root_ctx(t),
            ty::Adt(..) => self.is_local_adt(t, "RegexCtx") || self.is_local_adt(t, "PolicyCtx"),
            _ => false,
        }
    }
    /// `max(x - y, 0)`
    pub fn ssub(&self, st: &mut State<'tcx>, x: &Lin, y: &Lin) -> Lin {
        let x = st.facts.reduce(x);
        let y = st.facts.reduce(y);
        let d = x.sub(&y);
        let s = Lin::s(self.tm.app("ssub", vec![Val::Lin(x.clone()), Val::Lin(y)], true));
        if st.facts.entails(&self.tm, &Atom::Ge(d.clone())) {
            st.facts.add(&Atom::Eq(s.sub(&d)), &self.tm);
            return d;
        }
        if st.facts.entails(&self.tm, &Atom::Ge(d.neg())) {
            st.facts.add(&Atom::Eq(s), &self.tm);
            return Lin::k(0);
        }
        st.facts.add(&Atom::Ge(s.sub(&d)), &self.tm);
        st.facts.add(&Atom::Ge(x.sub(&s)), &self.tm);
        s
    }
    /// the unbounded context parameter of `F: Fn(&mut C) -> Result<Span, Error>`
    fn is_root_ctx(&self, t: Ty<'tcx>) -> bool {
        let Some(n) = self.tcx.opt_item_name(self.root_did) else { return false };
        matches!(n.as_str(), "try_parse" | "construct")
            && self.root_args.len() >= 2
            && matches!(self.root_args[1].kind(), ty::Ref(_, x, m) if m.is_mut() && *x == t)
    }
    pub fn ctx_key(&self, st: &State<'tcx>, v: &Val<'tcx>) -> R<Sym> {
        match self.peel_val(st, v) {
            Val::Sym(s, _) => Ok(s),
            // an exploded context: identify it by its first symbolic component
            Val::Agg(_, f) => {
                for x in f.iter() {
                    if let Val::Sym(s, t) = x {
                        if matches!(t.kind(), ty::Param(_)) && self.is_ctx_ty(*t) {
                            return Ok(*s);
                        }
                    }
                }
                Ok(self.tm.app("ctx", vec![f[0].clone()], false))
            }
            v => Err(Stop::Incomplete(format!("context value {}", self.tm.show(&v)))),
        }
    }
    /// Place of the position field of a concrete context, if it has one.
    fn off_place(&self, st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Result<Ptr<'tcx>, Sym>> {
        let t = self.peel(t);
        if let ty::Adt(d, a) = t.kind() {
            if d.did().is_local() && d.is_struct() {
                let p = self.peel_ptr(st, v);
                let fields = self.variant_fields(t, 0);
                let _ = a;
                if let Some(p) = p {
                    for (i, ft) in fields.iter().enumerate() {
                        if ft.is_usize() {
                            return Ok(Ok(p.field(0, i as u32, *ft)));
                        }
                    }
                    for (i, ft) in fields.iter().enumerate() {
                        if self.is_ctx_ty(*ft) {
                            return self.off_place(st, &Val::Ref(p.field(0, i as u32, *ft)), *ft);
                        }
                    }
                }
            }
        }
        Ok(Err(self.ctx_key(st, v)?))
    }
    pub fn ctx_off(&self, st: &mut State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Lin> {
        match self.off_place(st, v, t)? {
            Ok(p) => {
                let v = self.load(st, &p);
                Ok(self.to_lin(&v))
            }
            Err(k) => Ok(self.key_off(st, k)),
        }
    }
    pub fn key_off(&self, st: &State<'tcx>, k: Sym) -> Lin {
        match st.off.get(&k) {
            Some(l) => l.clone(),
            None => Lin::s(self.tm.app("offset", vec![Val::Sym(k, self.tcx.types.unit)], true)),
        }
    }
    pub fn set_ctx_off(&self, st: &mut State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>, l: Lin) -> R<()> {
        match self.off_place(st, v, t)? {
            Ok(p) => {
                self.store(st, &p, Val::Lin(l));
            }
            Err(k) => {
                st.off.insert(k, l);
            }
        }
        Ok(())
    }
    pub fn ctx_len(&self, st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Lin> {
        let t = self.peel(t);
        if let ty::Adt(d, _) = t.kind() {
            if d.did().is_local() && d.is_struct() {
                if let Some(p) = self.peel_ptr(st, v) {
                    let fields = self.variant_fields(t, 0);
                    for (i, ft) in fields.iter().enumerate() {
                        if self.is_ctx_ty(*ft) {
                            return self.ctx_len(st, &Val::Ref(p.field(0, i as u32, *ft)), *ft);
                        }
                    }
                    for (i, ft) in fields.iter().enumerate() {
                        if let ty::Ref(_, inner, _) = ft.kind() {
                            let d = self.load(st, &p.field(0, i as u32, *ft));
                            if let Val::Ref(q) = d {
                                let _ = inner;
                                return Ok(self.seq_len(st, &q));
                            }
                        }
                    }
                }
            }
        }
        let k = self.ctx_key(st, v)?;
        Ok(self.key_len(k))
    }
    pub fn key_len(&self, k: Sym) -> Lin {
        Lin::s(self.tm.app("ctxlen", vec![Val::Sym(k, self.tcx.types.unit)], true))
    }
    pub fn span_val(&self, beg: Lin, len: Lin) -> Val<'tcx> {
        let (b, l) = self.span_ix();
        let mut f = vec![Val::Undef, Val::Undef];
        f[b] = Val::Lin(beg);
        f[l] = Val::Lin(len);
        Val::agg(0, f)
    }

    /// outcome of matching a pattern by its contract
    fn match_contract(
        &self,
        st: &mut State<'tcx>,
        k: EvK,
        c: &CallSite<'_, 'tcx>,
        pat: usize,
        ctx: usize,
        skips: bool,
    ) -> R<Result<(Lin, Lin), Val<'tcx>>> {
        let cv = c.argv[ctx].clone();
        let ct = c.argtys[ctx];
        let off = self.ctx_off(st, &cv, ct)?;
        let len = self.ctx_len(st, &cv, ct)?;
        let subj = self.peel_val(st, &c.argv[pat]);
        let key = self.ctx_key(st, &cv).ok();
        let r = self.choose(st, 2)?;
        let mut e = Ev::new(k, c.name);
        e.subj = subj.clone();
        e.subj_ty = Some(self.peel(c.argtys[pat]));
        e.ctx = key;
        e.at = Some(off.clone());
        e.loc = c.loc.into();
        if r == 0 {
            let l = Lin::s(self.tm.fresh("mlen", true));
            let beg = if skips {
                // what the context skips depends only on the position
                let k = key.map(|k| Val::Sym(k, self.tcx.types.unit)).unwrap_or(Val::Undef);
                let sk = Lin::s(self.tm.app("skip", vec![k, Val::Lin(off.clone())], true));
                off.add(&sk)
            } else {
                off.clone()
            };
            let end = beg.add(&l);
            st.facts.add(&Atom::Ge(len.sub(&end)), &self.tm);
            self.set_ctx_off(st, &cv, ct, end)?;
            e.ok = Some(true);
            e.res = self.span_val(beg.clone(), l.clone());
            self.emit(st, e)?;
            Ok(Ok((beg, l)))
        } else {
            let et = self.is_result(c.dty).map(|x| x.1).unwrap_or(c.dty);
            let ev = self.err_val("err", et);
            e.ok = Some(false);
            e.res = ev.clone();
            if self.weak.get() {
                // a user-supplied part that gives up may have moved the position
                let n = Lin::s(self.tm.fresh("emv", true));
                let no = off.add(&n);
                st.facts.add(&Atom::Ge(len.sub(&no)), &self.tm);
                self.set_ctx_off(st, &cv, ct, no)?;
            }
            self.emit(st, e)?;
            Ok(Err(ev))
        }
    }

    fn call_unknown_fn(
        &self,
        st: &mut State<'tcx>,
        fval: Val<'tcx>,
        fty: Ty<'tcx>,
        argv: Vec<Val<'tcx>>,
        argtys: Vec<Ty<'tcx>>,
        dest: Ptr<'tcx>,
        dty: Ty<'tcx>,
        target: Option<BasicBlock>,
        loc: &str,
    ) -> R<()> {
        // a function value supplied by the user
        let mut e = Ev::new(EvK::CallFn, "call");
        e.subj = self.peel_val(st, &fval);
        e.subj_ty = Some(self.peel(fty));
        e.loc = loc.into();
        e.args = argv.iter().map(|a| self.peel_val(st, a)).collect();
        for (i, t) in argtys.iter().enumerate() {
            if self.is_ctx_ty(self.peel(*t)) {
                e.ctx = self.ctx_key(st, &argv[i]).ok();
                e.at = Some(self.ctx_off(st, &argv[i], *t)?);
            }
        }
        // fn(&mut C) -> Result<Span, Error> is a pattern
        let mutctx = argtys.iter().position(|t| matches!(t.kind(), ty::Ref(_, x, m) if m.is_mut() && self.is_ctx_ty(*x)));
        if let (Some(ci), Some((ot, _))) = (mutctx, self.is_result(dty)) {
            if argtys.len() == 1 && self.is_span(ot) {
                let c = CallSite {
                    did: self.root_did,
                    name: "call-pattern",
                    args: ty::List::empty(),
                    argv: vec![fval.clone(), argv[ci].clone()],
                    argtys: vec![fty, argtys[ci]],
                    dest: dest.clone(),
                    dty,
                    target,
                    loc,
                };
                let v = match self.match_contract(st, EvK::Parse, &c, 0, 1, false)? {
                    Ok((b, l)) => self.ok(self.span_val(b, l)),
                    Err(x) => self.err(x),
                };
                return self.finish(st, &dest, v, target);
            }
        }
        let v = self.fork_value(st, "fnret", dty)?;
        if let Some(ci) = mutctx {
            let o = self.ctx_off(st, &argv[ci], argtys[ci])?;
            let _ = o;
            let n = Lin::s(self.tm.fresh("off", true));
            self.set_ctx_off(st, &argv[ci].clone(), argtys[ci], n)?;
        }
        e.res = v.clone();
        e.ok = self.outcome(&v, dty);
        self.emit(st, e)?;
        self.finish(st, &dest, v, target)
    }
    /// success/failure of a forked value
    pub fn outcome(&self, v: &Val<'tcx>, t: Ty<'tcx>) -> Option<bool> {
        if self.is_result(t).is_some() {
            return v.variant().map(|x| x == 0);
        }
        if self.is_option(t).is_some() {
            return v.variant().map(|x| x == 1);
        }
        if let Val::Bool(Cond::K(b)) = v {
            return Some(*b);
        }
        None
    }
    /// An unconstrained value; sums and booleans are split into their cases.
    pub fn fork_value(&self, st: &mut State<'tcx>, tag: &str, t: Ty<'tcx>) -> R<Val<'tcx>> {
        if let Some((o, e)) = self.is_result(t) {
            return Ok(if self.choose(st, 2)? == 0 {
                let v = self.fork_value(st, tag, o)?;
                self.ok(v)
            } else {
                self.err(self.err_val("err", e))
            });
        }
        if let Some(o) = self.is_option(t) {
            return Ok(if self.choose(st, 2)? == 0 {
                let v = self.fork_value(st, tag, o)?;
                self.some(v)
            } else {
                self.none()
            });
        }
        if t.is_bool() {
            return Ok(Val::bool(self.choose(st, 2)? == 0));
        }
        if self.is_span(t) {
            let b = Lin::s(self.tm.fresh("ubeg", true));
            let l = Lin::s(self.tm.fresh("ulen", true));
            return Ok(self.span_val(b, l));
        }
        Ok(self.fresh(tag, t))
    }

    fn untuple(&self, v: &Val<'tcx>) -> Vec<Val<'tcx>> {
        match v {
            Val::Agg(_, f) => (**f).clone(),
            Val::Undef => vec![],
            v => vec![v.clone()],
        }
    }

    /// Call through one of the Fn traits.
    fn call_fn_trait(
        &self,
        st: &mut State<'tcx>,
        selfv: Val<'tcx>,
        selft: Ty<'tcx>,
        tup: Val<'tcx>,
        tupt: Ty<'tcx>,
        dest: Ptr<'tcx>,
        dty: Ty<'tcx>,
        target: Option<BasicBlock>,
        loc: &str,
    ) -> R<()> {
        let args = self.untuple(&tup);
        let tys: Vec<Ty<'tcx>> = match tupt.kind() {
            ty::Tuple(l) => l.iter().collect(),
            _ => vec![],
        };
        let mut v = selfv;
        let mut t = selft;
        loop {
            match t.kind() {
                ty::Ref(_, inner, _) => {
                    if let Val::Ref(p) = &v {
                        let x = self.load(st, p);
                        if matches!(inner.kind(), ty::Ref(..)) || matches!(x, Val::Fun(_)) {
                            v = x;
                            t = *inner;
                            continue;
                        }
                    }
                    if let ty::Closure(cd, ca) = inner.kind() {
                        return self.call_closure(st, *cd, ca, v, true, *inner, args, dest, target);
                    }
                    if let (ty::Dynamic(..), Val::Ref(p)) = (inner.kind(), &v)
                        && let Some((_, d)) = st.dyns.iter().find(|d| d.0 == *p).cloned()
                        && let ty::Closure(cd, ca) = d.kind()
                    {
                        return self.call_closure(st, *cd, ca, v, true, d, args, dest, target);
                    }
                    t = *inner;
                    // keep `v` as the reference; identity is the pointee
                    if let Val::Ref(p) = &v {
                        v = self.load(st, p);
                    }
                }
                ty::Closure(cd, ca) => return self.call_closure(st, *cd, ca, v, false, t, args, dest, target),
                _ => break,
            }
        }
        if let Val::Fun(ft) = &v {
            if let Some((did, a)) = fndef(*ft) {
                return self.call_def(st, did, a, args, tys, dest, dty, target, loc);
            }
        }
        if let Some((did, a)) = fndef(t) {
            return self.call_def(st, did, a, args, tys, dest, dty, target, loc);
        }
        if matches!(t.kind(), ty::Dynamic(..)) && matches!(v, Val::Agg(..) | Val::Undef) {
            // a closure of this crate, but which one?
            return Err(Stop::Incomplete("a closure called through a list of functions".into()));
        }
        self.call_unknown_fn(st, v, t, args, tys, dest, dty, target, loc)
    }

    fn call_closure(
        &self,
        st: &mut State<'tcx>,
        cd: DefId,
        ca: GenericArgsRef<'tcx>,
        v: Val<'tcx>,
        is_ref: bool,
        ct: Ty<'tcx>,
        args: Vec<Val<'tcx>>,
        dest: Ptr<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        let inst = Instance::new_raw(cd, ca);
        let Some(body) = self.body(inst) else {
            return Err(Stop::Incomplete(format!("closure body {cd:?}")));
        };
        let want_ref = body.body.local_decls[rustc_middle::mir::Local::from_u32(1)].ty.is_ref();
        let me = match (want_ref, is_ref) {
            (true, true) | (false, false) => v,
            (true, false) => {
                let tag = self.temp_slot(st);
                let r = Root::Loc(self.depth(st), tag);
                st.mem.insert(r, v);
                Val::Ref(Ptr::root(r))
            }
            (false, true) => self.peel_val(st, &v),
        };
        let _ = ct;
        let mut a = vec![me];
        a.extend(args);
        self.push_frame(st, body, a, Some(dest), target)
    }
    /// a temporary of the current frame, named after the current program point
    pub fn temp_slot(&self, st: &State<'tcx>) -> u32 {
        match &st.frames.last().unwrap().kind {
            FrameKind::Mir { bb, .. } => 500_000 + bb.as_u32(),
            FrameKind::Drain { .. } => 400_000,
        }
    }

    pub fn call_def(
        &self,
        st: &mut State<'tcx>,
        did: DefId,
        args: GenericArgsRef<'tcx>,
        argv: Vec<Val<'tcx>>,
        argtys: Vec<Ty<'tcx>>,
        dest: Ptr<'tcx>,
        dty: Ty<'tcx>,
        target: Option<BasicBlock>,
        loc: &str,
    ) -> R<()> {
        let tcx = self.tcx;
        // constructors used as functions
        if let DefKind::Ctor(..) = tcx.def_kind(did) {
            let v = match dty.kind() {
                ty::Adt(d, _) if d.is_enum() => {
                    let p = tcx.parent(did);
                    d.variants().iter_enumerated().find(|(_, x)| x.def_id == p || x.ctor_def_id() == Some(did)).map(|x| x.0.as_u32()).unwrap_or(0)
                }
                _ => 0,
            };
            return self.finish(st, &dest, Val::agg(v, argv), target);
        }
        let name = self.fpath(did);
        let item = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let tr = tcx.trait_of_assoc(did);
        let trn = tr.map(|t| tcx.item_name(t).to_string()).unwrap_or_default();

        // diverging calls
        if dty.is_never() || (target.is_none() && matches!(st.frames.last().unwrap().kind, FrameKind::Mir { .. })) {
            let mut e = Ev::new(EvK::Panic, &name);
            e.loc = loc.into();
            self.stats.borrow_mut().panics += 1;
            self.emit(st, e)?;
            return Err(Stop::End);
        }
        if !trn.is_empty() && matches!(trn.as_str(), "Fn" | "FnMut" | "FnOnce") && name.starts_with("core::ops::function") {
            let selft = args.type_at(0);
            let tupt = args.type_at(1);
            // argv[0] is self, by value or by reference
            let byref = item != "call_once";
            let (mut sv, mut stt) = (argv[0].clone(), selft);
            if byref {
                stt = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, selft);
            }
            if let Val::Undef = sv {
                sv = Val::agg(0, vec![]);
            }
            return self.call_fn_trait(st, sv, stt, argv.get(1).cloned().unwrap_or(Val::unit()), tupt, dest, dty, target, loc);
        }
        let argtys = if argtys.is_empty() && !argv.is_empty() {
            let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
            sig.skip_binder().inputs().iter().map(|t| self.subst_ty(*t)).collect()
        } else {
            argtys
        };
        let c = CallSite { did, name: &name, args, argv, argtys, dest, dty, target, loc };
        // the repeated unit of a repetition, for the functions of the appended file
        if trn == "Parts" && item == "unit" && name.contains(crate::APPENDED) {
            let me = self.peel_ptr(st, &c.argv[0]);
            let (t, want) = (self.peel(c.argtys[0]), self.peel(dty));
            let at = self.variant_fields(t, 0).into_iter().position(|x| x == want);
            if let (Some(p), Some(i)) = (me, at) {
                return self.finish(st, &c.dest, Val::Ref(p.field(0, i as u32, want)), c.target);
            }
            return Err(Stop::Incomplete("the unit of a repetition".into()));
        }

        if let Some(r) = self.model(st, &c, &trn, &item)? {
            return self.finish(st, &c.dest, r, c.target);
        }
        if st.frames.len() > 0 && self.pushed(st, &c, &trn, &item)? {
            return Ok(());
        }

        // iterator adapters on modelled iterators: the provided method, which only uses `next`
        if trn == "Iterator" && !c.did.is_local() && item != "next" && self.tcx.defaultness(did).has_value() && !c.argv.is_empty() {
            let v = match &c.argv[0] {
                Val::Ref(_) => self.peel_val(st, &c.argv[0]),
                v => v.clone(),
            };
            let ours = match &v {
                Val::It { .. } => true,
                Val::Sym(s, _) => st.iters.contains_key(s),
                Val::Agg(..) => self.adt_name(self.peel(c.argtys[0])) == "Range",
                _ => false,
            };
            if ours && item != "size_hint" {
                if let Some(b) = self.body(Instance::new_raw(did, args)) {
                    return self.push_frame(st, b, c.argv, Some(c.dest), c.target);
                }
            }
        }
        // resolve
        let resolved = Instance::try_resolve(tcx, self.env, did, args);
        match resolved {
            Ok(Some(inst)) => match inst.def {
                ty::InstanceKind::Item(d) => {
                    let (krate, m) = self.crate_mod(d);
                    let local = d.is_local();
                    let allowed = local
                        || (krate == "core"
                            && matches!(
                                m.as_str(),
                                "option" | "result" | "ops" | "convert" | "iter" | "cmp" | "bool" | "tuple" | "borrow" | "mem" | "range" | "default" | "array" | "num" | "intrinsics" | "clone"
                            ))
                        || (krate == "core" && m == "" )
                        || (krate == "core" && m == "slice" && matches!(item.as_str(), "first" | "is_empty" | "split_first" | "split_last"))
                        || (krate == "core" && m == "str" && matches!(item.as_str(), "parse"));
                    if allowed && !(self.atomic_local(d)) {
                        if let Some(b) = self.body(inst) {
                            return self.push_frame(st, b, c.argv, Some(c.dest), c.target);
                        }
                    }
                }
                ty::InstanceKind::Virtual(..) => {}
                ty::InstanceKind::Shim(_) => {
                    if let Some(b) = self.body(inst) {
                        return self.push_frame(st, b, c.argv, Some(c.dest), c.target);
                    }
                }
                _ => {}
            },
            _ => {}
        }
        if let Some((d, a)) = tr.and_then(|t| self.only_impl(t, did, args)) {
            if let Some(b) = self.body(Instance::new_raw(d, a)) {
                return self.push_frame(st, b, c.argv, Some(c.dest), c.target);
            }
        }
        if let Some((d, a)) = tr.and_then(|t| self.general_impl(t, did, args)) {
            if let Some(b) = self.body(Instance::new_raw(d, a)) {
                return self.push_frame(st, b, c.argv, Some(c.dest), c.target);
            }
        }
        if let Some(v) = self.seq_eq(st, &c, &trn, &item)? {
            return self.finish(st, &c.dest, v, c.target);
        }
        if let Some(v) = self.cmp_call(st, &c, &trn, &item) {
            return self.finish(st, &c.dest, v, c.target);
        }
        if tr.is_some_and(|t| t.is_local()) {
            if let Some(v) = self.contract(st, &c, &trn, &item)? {
                return self.finish(st, &c.dest, v, c.target);
            }
        }
        self.opaque(st, c)
    }

    /// A local trait implemented once, for every type: its methods are what that implementation says.
    fn only_impl(&self, tr: DefId, did: DefId, args: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        if !tr.is_local() {
            return None;
        }
        let imps = tcx.all_local_trait_impls(());
        let [imp] = imps.get(&tr)?.as_slice() else { return None };
        let imp = imp.to_def_id();
        let r = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
        if !matches!(r.self_ty().kind(), ty::Param(_)) {
            return None;
        }
        let n = r.args.len();
        let Some(m) = tcx.associated_items(imp).in_definition_order().find(|a| a.trait_item_def_id() == Some(did)) else {
            return tcx.defaultness(did).has_value().then_some((did, args));
        };
        let own = tcx.generics_of(imp);
        let mut v = vec![];
        for i in 0..own.count() {
            let k = r.args.iter().position(|x| match x.kind() {
                ty::GenericArgKind::Type(t) => matches!(t.kind(), ty::Param(p) if p.index as usize == i),
                ty::GenericArgKind::Lifetime(l) => matches!(l.kind(), ty::ReEarlyParam(p) if p.index as usize == i),
                _ => false,
            })?;
            v.push(args[k]);
        }
        v.extend(args.iter().skip(n));
        Some((m.def_id, tcx.mk_args(&v)))
    }

    /// A method of the library's own iterators that is specialised for some types: the general form, which
    /// the others only make faster.
    fn general_impl(&self, tr: DefId, did: DefId, args: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let me = args.types().next()?;
        let ty::Adt(adt, own) = me.kind() else { return None };
        if tr.is_local() || adt.did().is_local() || tcx.crate_name(adt.did().krate).as_str() != "core" || !tcx.def_path_str(adt.did()).contains("::iter::") {
            return None;
        }
        let mut found = None;
        for &imp in tcx.trait_impls_of(tr).non_blanket_impls().iter().flat_map(|(_, v)| v) {
            let r = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let ty::Adt(a, pars) = r.self_ty().kind() else { continue };
            if a.did() != adt.did() || r.args.len() != 1 {
                continue;
            }
            let Some(m) = tcx.associated_items(imp).in_definition_order().find(|x| x.trait_item_def_id() == Some(did)) else { continue };
            if !tcx.defaultness(m.def_id).is_default() {
                continue;
            }
            let g = tcx.generics_of(imp);
            let mut v = vec![];
            for i in 0..g.count() {
                let k = pars.iter().position(|x| match x.kind() {
                    ty::GenericArgKind::Type(t) => matches!(t.kind(), ty::Param(p) if p.index as usize == i),
                    ty::GenericArgKind::Lifetime(l) => matches!(l.kind(), ty::ReEarlyParam(p) if p.index as usize == i),
                    _ => false,
                })?;
                v.push(own[k]);
            }
            v.extend(args.iter().skip(1));
            if found.replace((m.def_id, tcx.mk_args(&v))).is_some() {
                return None;
            }
        }
        found
    }

    /// Local functions that stay atomic (logging and formatting helpers).
    fn atomic_local(&self, d: DefId) -> bool {
        let n = self.fpath(d);
        n.contains("::fmt")
    }

    // ---- library models ----------------------------------------------------------------
    /// Models that push a frame.
    fn pushed(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, trn: &str, item: &str) -> R<bool> {
        if trn == "FromIterator" && item == "from_iter" {
            let it = c.argtys[0];
            let next = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator).and_then(|t| {
                self.tcx.associated_items(t).in_definition_order().find(|a| a.name().as_str() == "next").map(|a| a.def_id)
            });
            let Some(next) = next else { return Err(Stop::Incomplete("Iterator::next".into())) };
            let d = st.frames.len() as u32;
            st.mem.insert(Root::Loc(d, 0), c.argv[0].clone());
            let s = self.tm.app("collected", vec![], false);
            st.mem.insert(Root::Loc(d, 2), Val::Coll(s, Lin::k(0)));
            st.frames.push(Frame {
                kind: FrameKind::Drain { pc: 0, iter_ty: it, next_did: next },
                dest: Some(c.dest.clone()),
                target: c.target,
                given: None,
            });
            return Ok(true);
        }
        if trn == "Extend" && item == "extend" && self.adt_name(self.peel(c.argtys[0])) == "Vec" && !self.extends_by_parts(&c.argv, &c.argtys) {
            let it = c.argtys[1];
            let Val::Ref(p) = &c.argv[0] else { return Ok(false) };
            let Some(tr) = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return Ok(false) };
            let Some(next) = self.tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "next").map(|a| a.def_id) else { return Ok(false) };
            if !matches!(self.load(st, p), Val::Coll(..)) || !matches!(Instance::try_resolve(self.tcx, self.env, next, self.tcx.mk_args(&[it.into()])), Ok(Some(_))) {
                return Ok(false);
            }
            // by reference: the elements are copied
            let by_ref = c.args.types().nth(1).is_some_and(|t| t.is_ref()) && !self.peel(c.argtys[0]).walk().nth(1).and_then(|a| a.as_type()).is_some_and(|t| t.is_ref());
            if by_ref {
                return Ok(false);
            }
            let p = p.clone();
            let d = st.frames.len() as u32;
            st.mem.insert(Root::Loc(d, 0), c.argv[1].clone());
            st.mem.insert(Root::Loc(d, 3), Val::Ref(p));
            st.frames.push(Frame {
                kind: FrameKind::Drain { pc: 0, iter_ty: it, next_did: next },
                dest: Some(c.dest.clone()),
                target: c.target,
                given: None,
            });
            return Ok(true);
        }
        Ok(false)
    }
    /// `extend` with the elements of an array or an option whose shape is known
    fn extends_by_parts(&self, a: &[Val<'tcx>], tys: &[Ty<'tcx>]) -> bool {
        match (&a[1], tys[1].kind()) {
            (Val::Agg(..), ty::Array(..)) => true,
            (Val::Agg(..), ty::Adt(..)) => self.adt_name(tys[1]) == "Option",
            _ => false,
        }
    }

    fn model(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, trn: &str, item: &str) -> R<Option<Val<'tcx>>> {
        let a = &c.argv;
        let tcx = self.tcx;
        let n = c.name;
        let krate = tcx.crate_name(c.did.krate).to_string();
        // logging / formatting: no effect on parsing state
        if krate == "log" || krate.starts_with("tracing") || n.contains("fmt::") || n.starts_with("std::io::") {
            return Ok(Some(self.fresh("log", c.dty)));
        }
        if !c.did.is_local() {
            match (trn, item) {
                ("Deref", "deref") | ("DerefMut", "deref_mut") | ("Borrow", "borrow") | ("AsRef", "as_ref") | ("AsMut", "as_mut") | ("BorrowMut", "borrow_mut") => {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, c.did, c.args)
                        && i.def_id().is_local()
                        && self.body(i).is_some()
                    {
                        return Ok(None);
                    }
                    let t = c.argtys[0];
                    let inner = self.peel(t);
                    if let Val::Ref(p) = &a[0] {
                        // reference to reference
                        if let Val::Ref(_) = self.load(st, p) {
                            if trn.starts_with("Deref") || !matches!(inner.kind(), ty::Adt(..)) {
                                return Ok(Some(self.load(st, p)));
                            }
                        }
                        if matches!(inner.kind(), ty::Param(_)) {
                            return Ok(None);
                        }
                        let v = self.peel_val(st, &a[0]);
                        if let Val::Agg(_, f) = &v {
                            // a smart pointer value created here (lock or borrow guard)
                            if let Some(Val::Ref(_)) = f.first() {
                                return Ok(Some(f[0].clone()));
                            }
                        }
                        if let Val::Coll(..) = v {
                            return Ok(Some(a[0].clone()));
                        }
                        let out = self.app("deref", vec![v], c.dty);
                        return Ok(Some(out));
                    }
                }
                ("Clone", "clone") => {
                    let v = match &a[0] {
                        Val::Ref(p) => self.load(st, p),
                        v => v.clone(),
                    };
                    return Ok(Some(v));
                }
                ("Into", "into") | ("From", "from") => {
                    let from = c.argtys[0];
                    if from == c.dty {
                        return Ok(Some(a[0].clone()));
                    }
                }
                ("IntoIterator", "into_iter") => {
                    if let Some(v) = self.slice_iter(st, &a[0], c.argtys[0]) {
                        return Ok(Some(v));
                    }
                    // a short list written out in place, consumed
                    if let (ty::Array(et, _), Val::Agg(_, f)) = (c.argtys[0].kind(), &a[0]) {
                        if f.len() <= 8 {
                            let s = self.tm.app("listed", vec![Val::Str(c.loc.into())], false);
                            st.mem.insert(Root::Ext(s), a[0].clone());
                            let base = Ptr { root: Root::Ext(s), path: vec![] };
                            return Ok(Some(Val::It { base, elem: *et, pos: Lin::k(0), end: Lin::k(f.len() as i128) }));
                        }
                    }
                }
                ("Index", "index") | ("IndexMut", "index_mut") => {
                    if let Some(v) = self.index_call(st, c)? {
                        return Ok(Some(v));
                    }
                }
                ("TryFrom", "try_from") => {
                    // slice to fixed-size array
                    if let (Val::Ref(p), Some((ot, et))) = (&a[0], self.is_result(c.dty)) {
                        let it = self.peel(c.argtys[0]);
                        if let (ty::Slice(_), ty::Array(_, k)) = (it.kind(), self.peel(ot).kind()) {
                            let (len, k) = (self.seq_len(st, p), self.const_lin(*k));
                            if self.decide(st, &Atom::Eq(len.sub(&k)))? {
                                let v = if ot.is_ref() { a[0].clone() } else { self.load(st, p) };
                                return Ok(Some(self.ok(v)));
                            }
                            return Ok(Some(self.err(self.err_val("tryfrom", et))));
                        }
                    }
                }
                ("Iterator", "size_hint") => {
                    if let Some(p) = &self.peel_ptr(st, &a[0]) {
                        if let Val::It { pos, end, .. } = self.load(st, p) {
                            let l = Val::Lin(end.sub(&pos));
                            let o = self.some(l.clone());
                            return Ok(Some(Val::agg(0, vec![l, o])));
                        }
                    }
                }
                ("Iterator", "by_ref") => return Ok(Some(a[0].clone())),
                ("Iterator", "nth") => {
                    if let (Some(p), Some(it)) = (&self.peel_ptr(st, &a[0]), self.is_option(c.dty)) {
                        if let Val::It { base, elem, pos, end } = self.load(st, p) {
                            let at = pos.add(&self.to_lin(&a[1]));
                            let more = self.decide(st, &Atom::Ge(end.sub(&at).addk(-1)))?;
                            let mut e = Ev::new(EvK::ItNext, "next");
                            e.ok = Some(more);
                            e.args = vec![Val::Lin(at.clone())];
                            e.subj = Val::Ref(base.clone());
                            let q = base.index(at.clone(), elem);
                            let pos = if more { at.addk(1) } else { end.clone() };
                            self.store(st, p, Val::It { base, elem, pos, end });
                            let owned = self.adt_name(self.peel(c.argtys[0])) == "IntoIter";
                            if more {
                                e.res = if !owned && it.is_ref() { Val::Ref(q) } else { self.load(st, &q) };
                            }
                            let item = e.res.clone();
                            self.emit(st, e)?;
                            return Ok(Some(if more { self.some(item) } else { self.none() }));
                        }
                    }
                }
                ("Iterator", "next") => {
                    if let Some(p) = &self.peel_ptr(st, &a[0]) {
                        let v = self.load(st, p);
                        if let Val::It { base, elem, pos, end } = v {
                            let more = self.decide(st, &Atom::Ge(end.sub(&pos).addk(-1)))?;
                            let mut e = Ev::new(EvK::ItNext, "next");
                            e.ok = Some(more);
                            e.args = vec![Val::Lin(pos.clone())];
                            e.subj = Val::Ref(base.clone());
                            if more {
                                let q = base.index(pos.clone(), elem);
                                self.store(st, p, Val::It { base: base.clone(), elem, pos: pos.addk(1), end });
                                let owned = self.adt_name(self.peel(c.argtys[0])) == "IntoIter";
                                let item = if !owned && self.is_option(c.dty).is_some_and(|t| t.is_ref()) { Val::Ref(q) } else { self.load(st, &q) };
                                e.res = item.clone();
                                self.emit(st, e)?;
                                return Ok(Some(self.some(item)));
                            }
                            self.emit(st, e)?;
                            return Ok(Some(self.none()));
                        }
                        let t = self.peel(c.argtys[0]);
                        if self.adt_name(t) == "ChunksExact" {
                            if let Val::Agg(_, f) = &v {
                                if let (Val::Ref(q), Val::Lin(k)) = (&f[0], &f[1]) {
                                    let len = self.seq_len(st, q);
                                    if self.decide(st, &Atom::Ge(len.sub(k)))? {
                                        let it = self.is_option(c.dty).unwrap();
                                        let h = self.sub_slice(st, q, &Lin::k(0), k, it);
                                        let r = self.sub_slice(st, q, k, &len, it);
                                        self.store(st, p, Val::agg(0, vec![r, Val::Lin(k.clone())]));
                                        return Ok(Some(self.some(h)));
                                    }
                                    return Ok(Some(self.none()));
                                }
                            }
                        }
                        if matches!(&*self.adt_name(t), "RChunksExact" | "RChunks" | "Chunks") {
                            let name = self.adt_name(t);
                            if let Val::Agg(_, f) = &v {
                                if let (Val::Ref(q), Val::Lin(k)) = (&f[0], &f[1]) {
                                    let len = self.seq_len(st, q);
                                    let it = self.is_option(c.dty).unwrap();
                                    let full = self.decide(st, &Atom::Ge(len.sub(k)))?;
                                    if !full && (name == "RChunksExact" || !self.decide(st, &Atom::Ge(len.addk(-1)))?) {
                                        return Ok(Some(self.none()));
                                    }
                                    let cut = match (full, &*name) {
                                        (true, "Chunks") => k.clone(),
                                        (true, _) => len.sub(k),
                                        (false, "Chunks") => len.clone(),
                                        (false, _) => Lin::k(0),
                                    };
                                    let h = self.sub_slice(st, q, &Lin::k(0), &cut, it);
                                    let r = self.sub_slice(st, q, &cut, &len, it);
                                    let (h, r) = if name == "Chunks" { (h, r) } else { (r, h) };
                                    self.store(st, p, Val::agg(0, vec![r, Val::Lin(k.clone())]));
                                    return Ok(Some(self.some(h)));
                                }
                            }
                        }
                        // half-open integer ranges
                        if self.adt_name(t) == "Range" {
                            if let Val::Agg(_, f) = &v {
                                let (b, e) = (self.to_lin(&f[0]), self.to_lin(&f[1]));
                                if self.decide(st, &Atom::Ge(e.sub(&b).addk(-1)))? {
                                    self.store(st, p, Val::agg(0, vec![Val::Lin(b.addk(1)), Val::Lin(e)]));
                                    return Ok(Some(self.some(Val::Lin(b))));
                                }
                                return Ok(Some(self.none()));
                            }
                        }
                        if self.adt_name(t) == "Rev" {
                            let q = p.field(0, 0, self.variant_fields(t, 0)[0]);
                            return self.next_back(st, c, &q);
                        }
                        return self.ctx_iter_next(st, c, p, &v);
                    }
                }
                ("Iterator", "last") if matches!(&a[0], Val::It { .. }) || self.adt_name(self.peel(c.argtys[0])) == "ChunksExact" => {
                    return self.last_of(st, c, &a[0]);
                }
                ("DoubleEndedIterator", "next_back") => {
                    if let Some(p) = &self.peel_ptr(st, &a[0]) {
                        if let Some(v) = self.next_back(st, c, p)? {
                            return Ok(Some(v));
                        }
                    }
                }
                ("Iterator", "rev") => return Ok(Some(Val::agg(0, vec![a[0].clone()]))),
                _ => {}
            }
        }
        // intrinsics and small library functions
        if krate == "core" || krate == "alloc" || krate == "std" {
            let is_usize = |t: Ty<'tcx>| matches!(t.kind(), ty::Uint(_));
            match item {
                // no length reaches the limit
                "saturating_mul" if is_usize(c.dty) => {
                    let (x, y) = (self.to_lin(&a[0]), self.to_lin(&a[1]));
                    return Ok(Some(Val::Lin(self.mul(&x, &y))));
                }
                "saturating_sub" if is_usize(c.dty) => {
                    let (x, y) = (self.to_lin(&a[0]), self.to_lin(&a[1]));
                    return Ok(Some(Val::Lin(self.ssub(st, &x, &y))));
                }
                "saturating_add" | "wrapping_add" if is_usize(c.dty) => {
                    let (x, y) = (self.to_lin(&a[0]), self.to_lin(&a[1]));
                    if item == "wrapping_add" && (self.given_number(st, &x) || self.given_number(st, &y)) {
                        return Ok(Some(self.app("wrapping_add", vec![Val::Lin(x), Val::Lin(y)], c.dty)));
                    }
                    return Ok(Some(Val::Lin(self.to_lin(&a[0]).add(&self.to_lin(&a[1])))));
                }
                "checked_add" if self.is_option(c.dty).is_some_and(is_usize) => {
                    let s = self.to_lin(&a[0]).add(&self.to_lin(&a[1]));
                    return Ok(Some(if self.choose(st, 2)? == 0 {
                        self.some(Val::Lin(s))
                    } else {
                        // the sum exceeds the machine range: it is larger than every length
                        let m = Lin::s(self.tm.app("usize::MAX", vec![], true));
                        st.facts.add(&Atom::Ge(s.sub(&m).addk(-1)), &self.tm);
                        self.none()
                    }));
                }
                "checked_sub" if self.is_option(c.dty).is_some_and(is_usize) => {
                    let d = self.to_lin(&a[0]).sub(&self.to_lin(&a[1]));
                    return Ok(Some(if self.decide(st, &Atom::Ge(d.clone()))? { self.some(Val::Lin(d)) } else { self.none() }));
                }
                "min" | "max" | "integer_min" | "integer_max" if is_usize(c.dty) && a.len() == 2 => {
                    let (x, y) = (self.to_lin(&a[0]), self.to_lin(&a[1]));
                    let ge = self.decide(st, &Atom::Ge(x.sub(&y)))?;
                    return Ok(Some(Val::Lin(if ge == item.ends_with("max") { x } else { y })));
                }
                "replace" if n == "core::mem::replace" => {
                    if let Val::Ref(p) = &a[0] {
                        let o = self.load(st, p);
                        self.assign(st, p, a[1].clone())?;
                        return Ok(Some(o));
                    }
                }
                "take" if n == "core::mem::take" => {
                    if let Val::Ref(p) = &a[0] {
                        let o = self.load(st, p);
                        let d = self.default_of(c.dty);
                        self.assign(st, p, d)?;
                        return Ok(Some(o));
                    }
                }
                "swap" if n == "core::mem::swap" => {
                    if let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) {
                        let x = self.load(st, p);
                        let y = self.load(st, q);
                        self.assign(st, p, y)?;
                        self.assign(st, q, x)?;
                        return Ok(Some(Val::unit()));
                    }
                }
                "drop" if n == "core::mem::drop" => {
                    if !self.has_local_drop(c.argtys[0]) {
                        self.release(st, &a[0]);
                        return Ok(Some(Val::unit()));
                    }
                }
                "discriminant_value" => {
                    let v = self.peel_val(st, &a[0]);
                    return Ok(Some(match v {
                        Val::Agg(x, _) => Val::k(match c.argtys.first().map(|t| t.peel_refs()) {
                            Some(t) => self.discr_of(t, x),
                            None => x as i128,
                        }),
                        v => Val::Lin(Lin::s(self.tm.app("discr", vec![v], true))),
                    }));
                }
                "new" | "with_capacity" | "with_capacity_in" | "new_in" if n.starts_with("alloc::vec::Vec") => {
                    if item.starts_with("with") {
                        let mut e = Ev::new(EvK::Room, "with_capacity");
                        e.args = vec![a[0].clone()];
                        self.emit(st, e)?;
                    }
                    let s = self.tm.app("vec", vec![], false);
                    return Ok(Some(Val::Coll(s, Lin::k(0))));
                }
                "push" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let mut e = Ev::new(EvK::Push, "push");
                        e.subj = v.clone();
                        e.args = vec![a[1].clone()];
                        self.emit(st, e)?;
                        if let Val::Coll(s, l) = v {
                            self.store(st, p, Val::Coll(s, l.addk(1)));
                        } else {
                            let f = self.fresh("vec", self.peel(c.argtys[0]));
                            self.store(st, p, f);
                        }
                        return Ok(Some(Val::unit()));
                    }
                }
                "len" if n.starts_with("alloc::vec::Vec") || n.starts_with("core::slice") || n.starts_with("core::str") || n.starts_with("alloc::string") => {
                    if let Val::Ref(p) = &a[0] {
                        return Ok(Some(Val::Lin(self.seq_len(st, p))));
                    }
                    if let Val::Str(s) = &a[0] {
                        return Ok(Some(Val::k(s.len() as i128)));
                    }
                }
                "is_empty" if n.starts_with("alloc::vec::Vec") || n.starts_with("core::str") => {
                    if let Val::Ref(p) = &a[0] {
                        let l = self.seq_len(st, p);
                        return Ok(Some(Val::Bool(Cond::A(Atom::Eq(l)))));
                    }
                }
                "as_slice" | "as_str" | "as_bytes" | "as_mut_slice" | "as_ptr" | "as_deref" if matches!(&a[0], Val::Ref(_)) && !n.contains("Option") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        if matches!(v, Val::Sym(..)) && !n.starts_with("core::") {
                            return Ok(Some(self.app("deref", vec![v], c.dty)));
                        }
                        return Ok(Some(a[0].clone()));
                    }
                }
                "iter" | "iter_mut" if n.starts_with("core::slice") || n.starts_with("alloc::vec") || n.starts_with("core::array") => {
                    if let Some(v) = self.slice_iter(st, &a[0], c.argtys[0]) {
                        return Ok(Some(v));
                    }
                }
                "get" if n.starts_with("core::slice") || n.starts_with("core::str") => {
                    return self.seq_get(st, c).map(Some);
                }
                "copy_from_slice" | "clone_from_slice" if n.starts_with("core::slice") => {
                    if let (Val::Ref(d), Val::Ref(p)) = (&a[0], &a[1]) {
                        let (n, m) = (self.seq_len(st, d), self.seq_len(st, p));
                        if !self.decide(st, &Atom::Eq(n.sub(&m)))? {
                            return self.panic_end(st, "copy_from_slice", &c.loc);
                        }
                        if matches!(d.root, Root::Loc(..)) {
                            let v = self.load(st, p);
                            self.store(st, d, v);
                            return Ok(Some(Val::unit()));
                        }
                    }
                }
                "starts_with" | "strip_prefix"
                    if (n.starts_with("core::str") || n.starts_with("core::slice")) && self.is_seq(c.argtys[1]) && matches!(&a[0], Val::Ref(_)) =>
                {
                    let (hay, lit) = (self.peel_val(st, &a[0]), self.peel_val(st, &a[1]));
                    let Val::Bool(cnd) = self.starts(st, hay, lit.clone(), &c.loc)? else { unreachable!() };
                    if item == "starts_with" {
                        return Ok(Some(Val::Bool(cnd)));
                    }
                    if !self.decide_c(st, &cnd)? {
                        return Ok(Some(self.none()));
                    }
                    let Val::Ref(p) = &a[0] else { unreachable!() };
                    let (n, l) = (self.seq_len_of(st, &lit), self.seq_len(st, p));
                    st.facts.add(&Atom::Ge(l.sub(&n)), &self.tm);
                    let v = self.sub_slice(st, p, &n, &l, self.is_option(c.dty).unwrap_or(c.dty));
                    return Ok(Some(self.some(v)));
                }
                "new" | "from" if self.is_cell(c.dty) => return Ok(Some(Val::agg(0, vec![a[0].clone()]))),
                "default" if a.is_empty() && self.adt_name(c.dty) == "Vec" => {
                    let d = self.default_of(c.dty);
                    return Ok(Some(d));
                }
                "default" if self.is_cell(c.dty) => {
                    let t = self.cell_content(c.dty);
                    let d = self.default_of(t);
                    return Ok(Some(Val::agg(0, vec![d])));
                }
                _ if !a.is_empty() && self.is_cell(self.peel(c.argtys[0])) && (n.starts_with("core::cell::") || n.starts_with("core::sync::")) => {
                    if let Some(v) = self.cell_op(st, c, item)? {
                        return Ok(Some(v));
                    }
                }
                _ if item.starts_with("is_ascii") && (n.starts_with("core::char") || n.starts_with("core::num")) => {
                    let x = self.peel_val(st, &a[0]);
                    let x = self.to_lin(&x);
                    if let Some(iv) = ascii_class(item) {
                        return Ok(Some(Val::bool(self.in_intervals(st, &x, iv)?)));
                    }
                }
                "from_u32" if n.starts_with("core::char") => {
                    let x = self.to_lin(&a[0]);
                    return Ok(Some(if self.in_intervals(st, &x, &[(0, 0xD7FF), (0xE000, 0x10FFFF)])? { self.some(Val::Lin(x)) } else { self.none() }));
                }
                "len_utf16" if n.starts_with("core::char") => {
                    let l = self.to_lin(&a[0]);
                    let big = self.decide(st, &Atom::Ge(l.addk(-0x10000)))?;
                    return Ok(Some(Val::Lin(Lin::k(if big { 2 } else { 1 }))));
                }
                "len_utf8" if n.starts_with("core::char") => {
                    let s = Lin::s(self.tm.app("len_utf8", vec![a[0].clone()], true));
                    st.facts.add(&Atom::Ge(s.addk(-1)), &self.tm);
                    st.facts.add(&Atom::Ge(s.neg().addk(4)), &self.tm);
                    return Ok(Some(Val::Lin(s)));
                }
                "to_digit" if n.starts_with("core::char") => {
                    let s = self.tm.app("core::char::methods::is_digit", a.clone(), false);
                    return Ok(Some(if self.decide(st, &Atom::B(s))? {
                        self.some(self.app("digit", a.clone(), self.is_option(c.dty).unwrap()))
                    } else {
                        self.none()
                    }));
                }
                "is_digit" | "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_control" | "is_lowercase" | "is_uppercase" | "is_whitespace"
                    if n.starts_with("core::char") =>
                {
                    let a: Vec<_> = a.iter().map(|x| self.peel_val(st, x)).collect();
                    return Ok(Some(self.app(&format!("core::char::methods::{item}"), a, c.dty)));
                }
                "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" if n.starts_with("core::num") || n.starts_with("core::f") => {
                    let x = self.peel_val(st, &a[0]);
                    return Ok(Some(self.app(&format!("{item} {}", c.dty), vec![x], c.dty)));
                }
                "from_str_radix" if n.starts_with("core::num") => {
                    let x = self.peel_val(st, &a[0]);
                    return Ok(Some(self.app(&format!("from_str_radix {}", c.dty), vec![x, a[1].clone()], c.dty)));
                }
                "chunks_exact" | "chunks" | "rchunks_exact" | "rchunks" if n.starts_with("core::slice") => {
                    if let Val::Ref(_) = &a[0] {
                        return Ok(Some(Val::agg(0, vec![a[0].clone(), a[1].clone()])));
                    }
                }
                "first_chunk" | "split_first_chunk" | "as_array" if n.starts_with("core::slice") => {
                    if let Val::Ref(p) = &a[0] {
                        let Some(k) = c.args.consts().last() else { return Ok(None) };
                        let k = self.const_lin(k);
                        let len = self.seq_len(st, p);
                        let at = if item == "as_array" { Atom::Eq(len.sub(&k)) } else { Atom::Ge(len.sub(&k)) };
                        if self.decide(st, &at)? {
                            let h = self.sub_slice(st, p, &Lin::k(0), &k, c.argtys[0]);
                            if item == "split_first_chunk" {
                                let t = self.sub_slice(st, p, &k, &len, c.argtys[0]);
                                return Ok(Some(self.some(Val::agg(0, vec![h, t]))));
                            }
                            return Ok(Some(self.some(h)));
                        }
                        return Ok(Some(self.none()));
                    }
                }
                "get_mut" if n.starts_with("core::slice") => return self.seq_get(st, c).map(Some),
                "last" if n.starts_with("core::slice") => {
                    if let Val::Ref(p) = &a[0] {
                        let len = self.seq_len(st, p);
                        if self.decide(st, &Atom::Ge(len.addk(-1)))? {
                            let t = self.peel(self.is_option(c.dty).unwrap());
                            return Ok(Some(self.some(Val::Ref(p.index(len.addk(-1), t)))));
                        }
                        return Ok(Some(self.none()));
                    }
                }
                "clear" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let mut e = Ev::new(EvK::ArrSet, "clear");
                        e.subj = v.clone();
                        self.emit(st, e)?;
                        let s = self.tm.app("vec", vec![], false);
                        self.store(st, p, Val::Coll(s, Lin::k(0)));
                        return Ok(Some(Val::unit()));
                    }
                }
                "truncate" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let (k, len) = (self.to_lin(&a[1]), self.seq_len(st, p));
                        if !k.is_zero() && self.decide(st, &Atom::Ge(k.sub(&len)))? {
                            return Ok(Some(Val::unit()));
                        }
                        let none = self.decide(st, &Atom::Eq(k.clone()))?;
                        let mut e = Ev::new(EvK::ArrSet, if none { "clear" } else { "truncate" });
                        e.subj = v.clone();
                        self.emit(st, e)?;
                        let s = if none { self.tm.app("vec", vec![], false) } else { self.tm.app("truncate", vec![v, Val::Lin(k.clone())], false) };
                        self.store(st, p, Val::Coll(s, k));
                        return Ok(Some(Val::unit()));
                    }
                }
                "is_char_boundary" if n.starts_with("core::str") && a.len() == 2 => {
                    if let Val::Ref(p) = &a[0] {
                        let (k, len) = (self.to_lin(&a[1]), self.seq_len(st, p));
                        let r = self.decide(st, &Atom::Ge(len.sub(&k)))? && self.boundaries(st, p, &k, &k, &len)?;
                        return Ok(Some(Val::bool(r)));
                    }
                }
                // the elements of an array or of an option, one after the other
                "extend" | "extend_from_slice" if self.adt_name(self.peel(c.argtys[0])) == "Vec" && a.len() == 2 => {
                    let t = c.argtys[1];
                    let by_ref = t.is_ref();
                    let w = match &a[1] {
                        Val::Ref(q) if by_ref => self.load(st, q),
                        w => w.clone(),
                    };
                    let inner = t.peel_refs();
                    let elems: Option<Vec<Val<'tcx>>> = match (&w, inner.kind()) {
                        (Val::Agg(_, f), ty::Array(_, k)) if k.try_to_target_usize(self.tcx) == Some(f.len() as u64) && (item == "extend_from_slice" || !by_ref) => Some(f.to_vec()),
                        (Val::Agg(vr, f), ty::Adt(..)) if !by_ref && self.adt_name(inner) == "Option" => Some(if *vr == 1 { f.to_vec() } else { vec![] }),
                        _ => None,
                    };
                    if let (Val::Ref(p), Some(elems)) = (&a[0], elems) {
                        for x in elems {
                            let v = self.load(st, p);
                            let mut e = Ev::new(EvK::Push, "push");
                            e.subj = v.clone();
                            e.args = vec![x];
                            self.emit(st, e)?;
                            let v = match v {
                                Val::Coll(s, l) => Val::Coll(s, l.addk(1)),
                                _ => self.fresh("vec", self.peel(c.argtys[0])),
                            };
                            self.store(st, p, v);
                        }
                        return Ok(Some(Val::unit()));
                    }
                }
                "insert" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let (k, len) = (self.to_lin(&a[1]), self.seq_len(st, p));
                        if self.decide(st, &Atom::Ge(k.sub(&len).addk(-1)))? {
                            return self.panic_end(st, "insert", &c.loc);
                        }
                        let last = self.decide(st, &Atom::Eq(k.sub(&len)))?;
                        let mut e = Ev::new(if last { EvK::Push } else { EvK::ArrSet }, if last { "push" } else { "insert" });
                        e.subj = v.clone();
                        e.args = if last { vec![a[2].clone()] } else { vec![] };
                        self.emit(st, e)?;
                        match v {
                            Val::Coll(s, l) if last => self.store(st, p, Val::Coll(s, l.addk(1))),
                            v => {
                                let s = self.tm.app("insert", vec![v, Val::Lin(k), a[2].clone()], false);
                                self.store(st, p, Val::Coll(s, len.addk(1)));
                            }
                        }
                        return Ok(Some(Val::unit()));
                    }
                }
                "pop" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let len = self.seq_len(st, p);
                        if self.decide(st, &Atom::Eq(len.clone()))? {
                            return Ok(Some(self.none()));
                        }
                        let mut e = Ev::new(EvK::ArrSet, "pop");
                        e.subj = v.clone();
                        self.emit(st, e)?;
                        let x = self.app("last", vec![v.clone()], self.is_option(c.dty).unwrap_or(c.dty));
                        match v {
                            Val::Coll(s, l) => self.store(st, p, Val::Coll(s, l.addk(-1))),
                            v => {
                                let s = self.tm.app("pop", vec![v], false);
                                self.store(st, p, Val::Coll(s, len.addk(-1)));
                            }
                        }
                        return Ok(Some(self.some(x)));
                    }
                }
                "remove" | "swap_remove" if n.starts_with("alloc::vec::Vec") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let (k, len) = (self.to_lin(&a[1]), self.seq_len(st, p));
                        if self.decide(st, &Atom::Ge(k.sub(&len)))? {
                            return self.panic_end(st, "remove", &c.loc);
                        }
                        let mut e = Ev::new(EvK::ArrSet, "remove");
                        e.subj = v.clone();
                        self.emit(st, e)?;
                        let x = self.app("removed", vec![v.clone(), Val::Lin(k.clone())], c.dty);
                        let s = self.tm.app("remove", vec![v, Val::Lin(k)], false);
                        self.store(st, p, Val::Coll(s, len.addk(-1)));
                        return Ok(Some(x));
                    }
                }
                // reordering: which of two equal or unequal elements is where is not followed
                "reverse" | "swap" | "rotate_left" | "rotate_right" if n.starts_with("core::slice") && matches!(&a[0], Val::Ref(_)) => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        if let Val::Coll(..) = v {
                            let len = self.seq_len(st, p);
                            // fewer than two elements have one order only
                            if !self.decide(st, &Atom::Ge(len.addk(-2)))? {
                                return Ok(Some(Val::unit()));
                            }
                            let mut e = Ev::new(EvK::ArrSet, item);
                            e.subj = v.clone();
                            self.emit(st, e)?;
                            let mut args = vec![v];
                            args.extend(a[1..].iter().cloned());
                            let s = self.tm.app(&format!("slice {item}"), args, false);
                            self.store(st, p, Val::Coll(s, len));
                            return Ok(Some(Val::unit()));
                        }
                    }
                }
                "fill" if n.starts_with("core::slice") => {
                    if let Val::Ref(p) = &a[0] {
                        let v = self.load(st, p);
                        let mut e = Ev::new(EvK::ArrSet, "fill");
                        e.subj = v.clone();
                        e.args = vec![a[1].clone()];
                        self.emit(st, e)?;
                        return Ok(Some(Val::unit()));
                    }
                }
                // an exclusive borrow that ends at once
                "replace" | "take" if n.starts_with("core::cell") && n.contains("RefCell") && a.len() <= 2 => {
                    let obj = self.peel_val(st, &a[0]);
                    let t = match self.peel(c.argtys[0]).kind() {
                        ty::Adt(_, g) => g.types().next().unwrap_or(tcx.types.unit),
                        _ => tcx.types.unit,
                    };
                    let place = self.app("deref", vec![obj.clone()], Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, t));
                    let mut e = Ev::new(EvK::Lock, "core::cell::RefCell::<T>::borrow_mut");
                    e.subj = obj;
                    e.ok = Some(true);
                    self.emit(st, e)?;
                    if let Val::Ref(p) = &place {
                        let old = self.load(st, p);
                        let new = if a.len() == 2 { a[1].clone() } else { self.default_of(t) };
                        self.store(st, p, new);
                        return Ok(Some(old));
                    }
                }
                "borrow" | "borrow_mut" | "try_borrow" | "try_borrow_mut" | "lock" | "try_lock" | "write" | "read" | "try_read" | "try_write"
                    if n.starts_with("core::cell::RefCell") || n.starts_with("std::sync") =>
                {
                    return self.lock(st, c).map(Some);
                }
                "get" | "get_unchecked" if n.contains("once") && (n.contains("OnceLock") || n.contains("OnceCell")) && a.len() == 1 => {
                    return self.once_get(st, c).map(Some);
                }
                "set" if n.contains("once") && (n.contains("OnceLock") || n.contains("OnceCell")) && a.len() == 2 => {
                    return self.once_set(st, c).map(Some);
                }
                "black_box" => return Ok(Some(a[0].clone())),
                "size_of" | "align_of" => {
                    let t = c.args.type_at(0);
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        return Ok(Some(Val::k(if item == "size_of" { l.size.bytes() } else { l.align.abi.bytes() } as i128)));
                    }
                    let h = format!("{item} {}", c.args.type_at(0));
                    return Ok(Some(self.app(&h, vec![], c.dty)));
                }
                "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => return Ok(Some(Val::unit())),
                "likely" | "unlikely" => return Ok(Some(a[0].clone())),
                _ => {}
            }
        }
        // a user-visible default-method name on a local trait
        Ok(None)
    }

    /// equality and order of values of unknown type, in one canonical form
    fn cmp_call(&self, st: &State<'tcx>, c: &CallSite<'_, 'tcx>, trn: &str, item: &str) -> Option<Val<'tcx>> {
        if c.did.is_local() || c.argv.len() != 2 {
            return None;
        }
        let (a, b) = (self.peel_val(st, &c.argv[0]), self.peel_val(st, &c.argv[1]));
        match (trn, item) {
            ("PartialEq", "eq") => Some(Val::Bool(Cond::A(Atom::B(self.eq_app(a, b))))),
            ("PartialEq", "ne") => Some(Val::Bool(Cond::A(Atom::NB(self.eq_app(a, b))))),
            ("PartialOrd", "lt" | "le") => Some(Val::Bool(Cond::A(Atom::B(self.tm.app(item, vec![a, b], false))))),
            ("PartialOrd", "gt") => Some(Val::Bool(Cond::A(Atom::B(self.tm.app("lt", vec![b, a], false))))),
            ("PartialOrd", "ge") => Some(Val::Bool(Cond::A(Atom::B(self.tm.app("le", vec![b, a], false))))),
            _ => None,
        }
    }
    /// does `hay` begin with `lit`?
    fn starts(&self, st: &mut State<'tcx>, hay: Val<'tcx>, lit: Val<'tcx>, loc: &str) -> R<Val<'tcx>> {
        let s = self.tm.app("starts_with", vec![hay.clone(), lit.clone()], false);
        let r = Val::Bool(Cond::A(Atom::B(s)));
        let mut e = Ev::new(EvK::Opaque, "starts_with");
        e.args = vec![hay, lit];
        e.res = r.clone();
        e.loc = loc.into();
        self.emit(st, e)?;
        Ok(r)
    }
    fn is_seq(&self, t: Ty<'tcx>) -> bool {
        let t = self.peel(t);
        matches!(t.kind(), ty::Str | ty::Slice(_) | ty::Array(..)) || matches!(self.adt_name(t).as_str(), "String" | "Vec")
    }
    /// `hay[..n] == lit` with `n` the length of `lit` asks whether `hay` begins with `lit`
    fn seq_eq(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, trn: &str, item: &str) -> R<Option<Val<'tcx>>> {
        if c.did.is_local() || c.argv.len() != 2 || trn != "PartialEq" || !matches!(item, "eq" | "ne") {
            return Ok(None);
        }
        let (mut a, mut b) = (self.peel_val(st, &c.argv[0]), self.peel_val(st, &c.argv[1]));
        let (mut ta, mut tb) = (self.peel(c.argtys[0]), self.peel(c.argtys[1]));
        let ne = item == "ne";
        if let (Some(ia), Some(ib)) = (self.is_option(ta), self.is_option(tb)) {
            let (Val::Agg(x, fa), Val::Agg(y, fb)) = (&a, &b) else { return Ok(None) };
            if x != y {
                return Ok(Some(Val::Bool(Cond::K(ne))));
            }
            if *x == 0 {
                return Ok(Some(Val::Bool(Cond::K(!ne))));
            }
            let (pa, pb) = (self.peel_val(st, &fa[0]), self.peel_val(st, &fb[0]));
            (a, b) = (pa, pb);
            (ta, tb) = (self.peel(ia), self.peel(ib));
        }
        if !self.is_seq(ta) || !self.is_seq(tb) {
            return Ok(None);
        }
        for (x, y) in [(&a, &b), (&b, &a)] {
            let Val::Sym(s, _) = x else { continue };
            let SymKind::App(h, f) = self.tm.kind(*s) else { continue };
            if &*h != "*" {
                continue;
            }
            let Val::Sym(q, _) = &f[0] else { continue };
            let SymKind::App(h, f) = self.tm.kind(*q) else { continue };
            let ("sub", [hay, Val::Lin(beg), Val::Lin(end)]) = (&*h, &f[..]) else { continue };
            let n = self.seq_len_of(st, y);
            if beg.is_zero() && self.eq(st, end, &n) {
                let r = self.starts(st, hay.clone(), y.clone(), &c.loc)?;
                let Val::Bool(Cond::A(Atom::B(s))) = r else { return Ok(None) };
                return Ok(Some(Val::Bool(Cond::A(if ne { Atom::NB(s) } else { Atom::B(s) }))));
            }
        }
        Ok(None)
    }
    pub fn eq_app(&self, a: Val<'tcx>, b: Val<'tcx>) -> Sym {
        let (x, y) = if self.tm.show(&a) <= self.tm.show(&b) { (a, b) } else { (b, a) };
        self.tm.app("eq", vec![x, y], false)
    }
    pub fn in_intervals(&self, st: &mut State<'tcx>, x: &Lin, iv: &[(i128, i128)]) -> R<bool> {
        for (lo, hi) in iv {
            if self.decide(st, &Atom::Ge(x.addk(-lo)))? && self.decide(st, &Atom::Ge(x.neg().addk(*hi)))? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    /// the value of a range of bytes or elements of the sequence at `p`
    pub fn sub_slice(&self, st: &mut State<'tcx>, p: &Ptr<'tcx>, b: &Lin, e: &Lin, refty: Ty<'tcx>) -> Val<'tcx> {
        let bv = self.load(st, p);
        let (b, e) = (st.facts.reduce(b), st.facts.reduce(e));
        if b.is_zero() && self.eq(st, &e, &self.seq_len(st, p)) {
            return Val::Ref(p.clone());
        }
        st.facts.add(&Atom::Ge(e.sub(&b)), &self.tm);
        // a part of a part is one of the whole
        let (bv, b, e) = match self.part_span(&bv) {
            Some((w, o, _)) => (w, b.add(&o), e.add(&o)),
            None => (bv, b, e),
        };
        self.app("sub", vec![bv, Val::Lin(b), Val::Lin(e)], refty)
    }
    pub fn is_cell(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => {
                let n = self.fpath(d.did());
                n == "core::cell::Cell" || n.starts_with("core::sync::atomic::Atomic")
            }
            _ => false,
        }
    }
    pub fn cell_content(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        if let ty::Adt(d, a) = t.kind() {
            if let Some(x) = a.types().next() {
                return x;
            }
            return match self.tcx.item_name(d.did()).as_str() {
                "AtomicBool" => self.tcx.types.bool,
                "AtomicUsize" => self.tcx.types.usize,
                "AtomicU32" => self.tcx.types.u32,
                "AtomicU64" => self.tcx.types.u64,
                _ => self.tcx.types.isize,
            };
        }
        self.tcx.types.unit
    }
    pub fn cell_get(&self, st: &State<'tcx>, p: &Ptr<'tcx>, t: Ty<'tcx>) -> Val<'tcx> {
        match self.load(st, p) {
            Val::Agg(_, f) if f.len() == 1 => f[0].clone(),
            v => self.app("cellget", vec![v], self.cell_content(t)),
        }
    }
    /// shared mutable cells, seen from one thread
    fn cell_op(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, item: &str) -> R<Option<Val<'tcx>>> {
        let a = &c.argv;
        let t = self.peel(c.argtys[0]);
        if !c.argtys[0].is_ref() {
            if item == "into_inner" {
                if let Val::Agg(_, f) = &a[0] {
                    return Ok(Some(f[0].clone()));
                }
                return Ok(Some(self.app("cellget", vec![a[0].clone()], c.dty)));
            }
            return Ok(None);
        }
        let Some(p) = self.peel_ptr(st, &a[0]) else { return Ok(None) };
        let old = self.cell_get(st, &p, t);
        let set = |st: &mut State<'tcx>, v: Val<'tcx>| self.store(st, &p, Val::agg(0, vec![v]));
        Ok(Some(match item {
            "get" | "load" => old,
            "clone" => Val::agg(0, vec![old]),
            "set" | "store" => {
                set(st, a[1].clone());
                Val::unit()
            }
            "replace" | "swap" => {
                set(st, a[1].clone());
                old
            }
            "take" => {
                let d = self.default_of(self.cell_content(t));
                set(st, d);
                old
            }
            "fetch_sub" | "fetch_add" => {
                let (x, y) = (self.to_lin(&old), self.to_lin(&a[1]));
                set(st, Val::Lin(if item == "fetch_sub" { x.sub(&y) } else { x.add(&y) }));
                old
            }
            "fetch_and" => {
                let n = if self.decide_c(st, &self.to_cond(&a[1]))? { old.clone() } else { Val::bool(false) };
                set(st, n);
                old
            }
            _ => return Ok(None),
        }))
    }
    /// `seq[i]` and `seq[a..b]`
    fn index_call(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Option<Val<'tcx>>> {
        let Some(p) = self.peel_ptr(st, &c.argv[0]) else { return Ok(None) };
        let bt = self.peel(c.argtys[0]);
        let v = self.load(st, &p);
        let p = match bt.kind() {
            ty::Slice(_) | ty::Array(..) | ty::Str => p,
            ty::Adt(_, a) if self.adt_name(bt) == "Vec" => match v {
                Val::Coll(..) => p,
                v => {
                    let sl = Ty::new_slice(self.tcx, a.type_at(0));
                    match self.app("deref", vec![v], Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, sl)) {
                        Val::Ref(q) => q,
                        _ => return Ok(None),
                    }
                }
            },
            _ => return Ok(None),
        };
        let len = self.seq_len(st, &p);
        let it = c.argtys[1];
        let oob = |st: &mut State<'tcx>| -> R<()> {
            let mut e = Ev::new(EvK::Panic, "index");
            e.loc = c.loc.into();
            self.stats.borrow_mut().panics += 1;
            self.emit(st, e)?;
            Err(Stop::End)
        };
        if it.is_usize() {
            let i = self.to_lin(&c.argv[1]);
            if !self.decide(st, &Atom::Ge(len.sub(&i).addk(-1)))? {
                oob(st)?;
            }
            return Ok(Some(Val::Ref(p.index(i, self.peel(c.dty)))));
        }
        let f: Vec<Lin> = match &c.argv[1] {
            Val::Agg(_, f) => f.iter().map(|x| self.to_lin(x)).collect(),
            _ => return Ok(None),
        };
        let (b, e) = match (self.adt_name(it).as_str(), f.len()) {
            ("Range", 2) => (f[0].clone(), f[1].clone()),
            ("RangeFrom", 1) => (f[0].clone(), len.clone()),
            ("RangeTo", 1) => (Lin::k(0), f[0].clone()),
            ("RangeFull", _) => (Lin::k(0), len.clone()),
            ("RangeToInclusive", 1) => (Lin::k(0), f[0].addk(1)),
            _ => return Ok(None),
        };
        if !self.decide(st, &Atom::Ge(e.sub(&b)))? || !self.decide(st, &Atom::Ge(len.sub(&e)))? || (bt.is_str() && !self.boundaries(st, &p, &b, &e, &len)?) {
            oob(st)?;
        }
        Ok(Some(self.sub_slice(st, &p, &b, &e, c.dty)))
    }
    /// do both ends of a range of text lie between characters?
    pub fn boundaries(&self, st: &mut State<'tcx>, p: &Ptr<'tcx>, b: &Lin, e: &Lin, len: &Lin) -> R<bool> {
        let bv = self.load(st, p);
        // a boundary of a part is one of the whole
        let part = self.part_span(&bv);
        let bv = part.as_ref().map_or(bv, |x| x.0.clone());
        for x in [b, e] {
            let mut x = st.facts.reduce(x);
            if x.is_zero() || self.eq(st, &x, len) {
                continue;
            }
            if let Some((_, o, _)) = &part {
                x = st.facts.reduce(&x.add(o));
            }
            let s = self.tm.app("boundary", vec![bv.clone(), Val::Lin(x)], false);
            if !self.decide(st, &Atom::B(s))? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    fn has_local_drop(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if d.did().is_local() && self.tcx.adt_destructor(d.did()).is_some())
    }
    fn default_of(&self, t: Ty<'tcx>) -> Val<'tcx> {
        if self.is_option(t).is_some() {
            return self.none();
        }
        if t.is_bool() {
            return Val::bool(false);
        }
        if t.is_integral() {
            return Val::k(0);
        }
        if self.adt_name(t) == "Vec" {
            return Val::Coll(self.tm.app("vec", vec![], false), Lin::k(0));
        }
        self.fresh("default", t)
    }
    pub fn release(&self, st: &mut State<'tcx>, v: &Val<'tcx>) {
        match v {
            Val::Sym(s, _) => st.held.retain(|x| x != s),
            Val::Agg(_, f) => {
                for x in f.iter() {
                    self.release(st, x);
                }
            }
            _ => {}
        }
    }

    fn slice_iter(&self, st: &State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> Option<Val<'tcx>> {
        let mut inner = t;
        let mut v = v.clone();
        if !matches!(t.kind(), ty::Ref(..)) {
            return None;
        }
        while let ty::Ref(_, x, _) = inner.kind() {
            inner = *x;
            if let ty::Ref(..) = inner.kind() {
                if let Val::Ref(p) = &v {
                    v = self.load(st, p);
                }
            }
        }
        let Val::Ref(p) = v else { return None };
        match inner.kind() {
            ty::Slice(e) | ty::Array(e, _) => {
                let l = self.seq_len(st, &p);
                Some(Val::It { base: p, elem: *e, pos: Lin::k(0), end: l })
            }
            ty::Adt(_, a) if self.adt_name(inner) == "Vec" => {
                let e = a.type_at(0);
                match self.load(st, &p) {
                    Val::Coll(_, l) => Some(Val::It { base: p, elem: e, pos: Lin::k(0), end: l }),
                    v => {
                        let st_ = Ty::new_slice(self.tcx, e);
                        let r = self.app("deref", vec![v], Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, st_));
                        if let Val::Ref(q) = r {
                            let l = self.seq_len(st, &q);
                            return Some(Val::It { base: q, elem: e, pos: Lin::k(0), end: l });
                        }
                        None
                    }
                }
            }
            _ => None,
        }
    }

    fn seq_get(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Val<'tcx>> {
        // checked access: `Some` implies the requested range lies inside the sequence
        let base = match &c.argv[0] {
            Val::Ref(p) => p.clone(),
            v => {
                let v = v.clone();
                return Ok(self.app("get", vec![v, c.argv[1].clone()], c.dty));
            }
        };
        let len = self.seq_len(st, &base);
        let bv = self.load(st, &base);
        let it = c.argtys[1];
        let inner = self.is_option(c.dty).unwrap_or(c.dty);
        let nm = self.adt_name(it);
        let f: Vec<Lin> = match &c.argv[1] {
            Val::Agg(_, f) => f.iter().map(|x| self.to_lin(x)).collect(),
            v => vec![self.to_lin(v)],
        };
        let range = match (nm.as_str(), f.len()) {
            ("Range", 2) => Some((f[0].clone(), f[1].clone())),
            ("RangeFrom", 1) => Some((f[0].clone(), len.clone())),
            ("RangeTo", 1) => Some((Lin::k(0), f[0].clone())),
            ("RangeFull", _) => Some((Lin::k(0), len.clone())),
            _ => None,
        };
        match range {
            Some((b, e)) => {
                let is_str = self.peel(c.argtys[0]).is_str();
                let ok = self.decide(st, &Atom::Ge(e.sub(&b)))?
                    && self.decide(st, &Atom::Ge(len.sub(&e)))?
                    && (!is_str || self.boundaries(st, &base, &b, &e, &len)?);
                let mut ev = Ev::new(EvK::Orig, "get");
                ev.args = vec![Val::Lin(b.clone()), Val::Lin(e.clone())];
                ev.subj = bv.clone();
                ev.ok = Some(ok);
                if ok {
                    let v = self.sub_slice(st, &base, &b, &e, inner);
                    ev.res = v.clone();
                    self.emit(st, ev)?;
                    Ok(self.some(v))
                } else {
                    self.emit(st, ev)?;
                    Ok(self.none())
                }
            }
            None => {
                let i = self.to_lin(&c.argv[1]);
                if self.decide(st, &Atom::Ge(len.sub(&i).addk(-1)))? {
                    let et = self.peel(inner);
                    Ok(self.some(Val::Ref(base.index(i, et))))
                } else {
                    Ok(self.none())
                }
            }
        }
    }

    fn lock(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Val<'tcx>> {
        let obj = self.peel_val(st, &c.argv[0]);
        let obj_ty = self.peel(c.argtys[0]);
        let inner = match obj_ty.kind() {
            ty::Adt(_, a) => a.types().next().unwrap_or(self.tcx.types.unit),
            _ => self.tcx.types.unit,
        };
        let refty = Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, inner);
        let guard_ref = self.app("deref", vec![obj.clone()], refty);
        let mut e = Ev::new(EvK::Lock, c.name);
        e.subj = obj.clone();
        let mine = !c.name.contains("RefCell") || c.name.contains("mut");
        let mine = mine && !c.name.ends_with("read") && !c.name.ends_with("try_read");
        let guard_sym = self.tm.app(if mine { "exclusive" } else { "guard" }, vec![obj.clone()], false);
        let is_res = self.is_result(c.dty);
        // an attempt that does not wait may also find the lock merely busy
        let may_be_busy = c.name.contains("::try_") && c.name.starts_with("std::sync");
        // a shared borrow is always to be had: nothing keeps an exclusive one
        let how = if is_res.is_some() && !c.name.ends_with("try_borrow") { self.choose(st, if may_be_busy { 3 } else { 2 })? } else { 0 };
        let ok = how == 0;
        e.ok = if how == 2 { None } else { Some(ok) };
        self.emit(st, e)?;
        let guard = Val::agg(0, vec![guard_ref, Val::Sym(guard_sym, self.tcx.types.unit)]);
        if ok {
            if !st.held.contains(&guard_sym) {
                st.held.push(guard_sym);
            }
            Ok(if is_res.is_some() { self.ok(guard) } else { guard })
        } else {
            let t = is_res.unwrap().1;
            // the poison error carries the guard
            let e = self.err_val("poison", t);
            Ok(self.err(if may_be_busy { Val::agg(how as u32 - 1, if how == 1 { vec![e] } else { vec![] }) } else { e }))
        }
    }

    /// the place inside a cell that is filled once
    fn once_place(&self, c: &CallSite<'_, 'tcx>, obj: &Val<'tcx>) -> (Val<'tcx>, Sym) {
        let inner = match self.peel(c.argtys[0]).kind() {
            ty::Adt(_, a) => a.types().next().unwrap_or(self.tcx.types.unit),
            _ => self.tcx.types.unit,
        };
        let refty = Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, inner);
        (self.app("deref", vec![obj.clone()], refty), self.tm.app("filled", vec![obj.clone()], false))
    }
    fn once_get(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Val<'tcx>> {
        let obj = self.peel_val(st, &c.argv[0]);
        let (place, filled) = self.once_place(c, &obj);
        let ok = self.decide(st, &Atom::B(filled))?;
        let mut e = Ev::new(EvK::Lock, c.name);
        e.subj = obj;
        e.ok = Some(ok);
        self.emit(st, e)?;
        Ok(if ok { self.some(place) } else { self.none() })
    }
    fn once_set(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Val<'tcx>> {
        let obj = self.peel_val(st, &c.argv[0]);
        let (place, filled) = self.once_place(c, &obj);
        let full = self.decide(st, &Atom::B(filled))?;
        let mut e = Ev::new(EvK::Lock, c.name);
        e.subj = obj;
        e.ok = Some(!full);
        self.emit(st, e)?;
        if full {
            return Ok(self.err(c.argv[1].clone()));
        }
        if let Val::Ref(p) = &place {
            self.store(st, p, c.argv[1].clone());
        }
        st.facts.add(&Atom::B(filled), &self.tm);
        Ok(self.ok(Val::unit()))
    }

    /// the last element of an iterator that is used up
    fn last_of(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, v: &Val<'tcx>) -> R<Option<Val<'tcx>>> {
        let Some(it) = self.is_option(c.dty) else { return Ok(None) };
        match v {
            Val::It { base, elem, pos, end } => {
                if self.decide(st, &Atom::Ge(end.sub(pos).addk(-1)))? {
                    let q = base.index(end.addk(-1), *elem);
                    let item = if it.is_ref() { Val::Ref(q) } else { self.load(st, &q) };
                    return Ok(Some(self.some(item)));
                }
                Ok(Some(self.none()))
            }
            Val::Agg(_, f) if f.len() == 2 => match (&f[0], &f[1]) {
                (Val::Ref(q), Val::Lin(k)) => {
                    let len = self.seq_len(st, q);
                    if self.decide(st, &Atom::Ge(len.sub(k)))? {
                        let s = Lin::s(self.tm.fresh("chunk", true));
                        let e = s.add(k);
                        st.facts.add(&Atom::Ge(len.sub(&e)), &self.tm);
                        st.facts.add(&Atom::Ge(e.add(k).sub(&len).addk(-1)), &self.tm);
                        let h = self.sub_slice(st, q, &s, &e, it);
                        return Ok(Some(self.some(h)));
                    }
                    Ok(Some(self.none()))
                }
                _ => Ok(None),
            },
            _ => Ok(None),
        }
    }

    /// `next_back` on the iterators over sequences that the model knows
    fn next_back(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, p: &Ptr<'tcx>) -> R<Option<Val<'tcx>>> {
        let v = self.load(st, p);
        let Some(it) = self.is_option(c.dty) else { return Ok(None) };
        match v {
            Val::It { base, elem, pos, end } => {
                let more = self.decide(st, &Atom::Ge(end.sub(&pos).addk(-1)))?;
                let mut e = Ev::new(EvK::ItNext, "next_back");
                e.ok = Some(more);
                let last = end.addk(-1);
                e.args = vec![Val::Lin(last.clone())];
                e.subj = Val::Ref(base.clone());
                if more {
                    let q = base.index(last.clone(), elem);
                    self.store(st, p, Val::It { base: base.clone(), elem, pos, end: last });
                    let item = if it.is_ref() { Val::Ref(q) } else { self.load(st, &q) };
                    e.res = item.clone();
                    self.emit(st, e)?;
                    return Ok(Some(self.some(item)));
                }
                self.emit(st, e)?;
                Ok(Some(self.none()))
            }
            Val::Agg(_, f) if f.len() == 2 && !self.adt_name(self.peel(c.argtys[0])).trim_start_matches('R').eq("Chunks") => match (&f[0], &f[1]) {
                // exact chunks: the last one begins less than two chunk lengths before the end
                (Val::Ref(q), Val::Lin(k)) => {
                    let len = self.seq_len(st, q);
                    if self.decide(st, &Atom::Ge(len.sub(k)))? {
                        let s = Lin::s(self.tm.fresh("chunk", true));
                        let e = s.add(k);
                        st.facts.add(&Atom::Ge(len.sub(&e)), &self.tm);
                        st.facts.add(&Atom::Ge(e.add(k).sub(&len).addk(-1)), &self.tm);
                        let h = self.sub_slice(st, q, &s, &e, it);
                        let r = self.sub_slice(st, q, &Lin::k(0), &s, it);
                        self.store(st, p, Val::agg(0, vec![r, Val::Lin(k.clone())]));
                        return Ok(Some(self.some(h)));
                    }
                    Ok(Some(self.none()))
                }
                (Val::Lin(b), Val::Lin(e)) => {
                    if self.decide(st, &Atom::Ge(e.sub(b).addk(-1)))? {
                        let l = e.addk(-1);
                        self.store(st, p, Val::agg(0, vec![Val::Lin(b.clone()), Val::Lin(l.clone())]));
                        return Ok(Some(self.some(Val::Lin(l))));
                    }
                    Ok(Some(self.none()))
                }
                _ => Ok(None),
            },
            _ => Ok(None),
        }
    }

    /// `next` on the iterator over the items of a context
    fn ctx_iter_next(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, p: &Ptr<'tcx>, v: &Val<'tcx>) -> R<Option<Val<'tcx>>> {
        let Val::Sym(s, t) = v else { return Ok(None) };
        let Some(is) = st.iters.get(s).cloned() else {
            let _ = t;
            return Ok(None);
        };
        let _ = p;
        let it = self.is_option(c.dty).unwrap_or(c.dty);
        let item_ty = match it.kind() {
            ty::Tuple(l) if l.len() == 2 => l[1],
            _ => return Err(Stop::Incomplete(format!("context iterator item {it}"))),
        };
        // items sit at strictly increasing positions; the stream ends at the end of the input
        let more = {
            let end = st.facts.entails(&self.tm, &Atom::Eq(is.len.sub(&is.pos)));
            if end { false } else { self.choose(st, 2)? == 0 }
        };
        let mut e = Ev::new(EvK::Next, "next");
        e.subj = v.clone();
        e.ctx = Some(is.ctx);
        e.at = Some(is.pos.clone());
        e.ok = Some(more);
        if more {
            let item = self.fresh("item", item_ty);
            let w = Lin::s(self.tm.fresh("width", true));
            st.facts.add(&Atom::Ge(w.addk(-1)), &self.tm);
            let npos = is.pos.add(&w);
            st.facts.add(&Atom::Ge(is.len.sub(&npos)), &self.tm);
            let out = Val::agg(0, vec![Val::Lin(is.pos.clone()), item]);
            st.iters.insert(*s, IterSt { pos: npos, ..is });
            e.res = out.clone();
            self.emit(st, e)?;
            Ok(Some(self.some(out)))
        } else {
            st.facts.add(&Atom::Eq(is.len.sub(&is.pos)), &self.tm);
            self.emit(st, e)?;
            Ok(Some(self.none()))
        }
    }

    // ---- contracts of the crate's own traits ---------------------------------------------
    fn contract(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>, trn: &str, item: &str) -> R<Option<Val<'tcx>>> {
        let a = c.argv.clone();
        let ts = c.argtys.clone();
        let v = match (trn, item) {
            ("Context", "len") => Val::Lin(self.ctx_len(st, &a[0], ts[0])?),
            ("Context", "is_empty") => {
                let l = self.ctx_len(st, &a[0], ts[0])?;
                Val::Bool(Cond::A(Atom::Eq(l)))
            }
            ("Context", "offset") => Val::Lin(self.ctx_off(st, &a[0], ts[0])?),
            ("Context", "set_offset" | "inc" | "dec") => {
                let o = self.ctx_off(st, &a[0], ts[0])?;
                let x = self.to_lin(&a[1]);
                let n = match item {
                    "set_offset" => x,
                    "inc" => o.add(&x),
                    _ => o.sub(&x),
                };
                self.set_ctx_off(st, &a[0], ts[0], n.clone())?;
                let mut e = Ev::new(EvK::SetOff, item);
                e.ctx = self.ctx_key(st, &a[0]).ok();
                e.at = Some(o);
                e.args = vec![Val::Lin(n)];
                e.loc = c.loc.into();
                self.emit(st, e)?;
                a[0].clone()
            }
            ("Context", "peek" | "peek_at") => {
                let o = if item == "peek" { self.ctx_off(st, &a[0], ts[0])? } else { self.to_lin(&a[1]) };
                let len = self.ctx_len(st, &a[0], ts[0])?;
                let key = self.ctx_key(st, &a[0])?;
                let q = self.tm.app("can peek", vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(st.facts.reduce(&o))], false);
                let seen = st.looks.iter().find(|l| l.0 == q).cloned();
                let ok = match &seen {
                    Some(l) => l.1,
                    None => self.choose(st, 2)? == 0,
                };
                let mut e = Ev::new(EvK::Peek, item);
                e.ctx = Some(key);
                e.at = Some(o.clone());
                e.ok = Some(ok);
                e.loc = c.loc.into();
                let (ot, et) = self.is_result(c.dty).unwrap();
                if ok && seen.is_none() {
                    st.looks.push((q, true, None));
                }
                if ok {
                    st.facts.add(&Atom::Ge(len.sub(&o)), &self.tm);
                    let s = self.tm.app("iter", vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(o.clone())], false);
                    let mut s = s;
                    let mut k = 1;
                    while st.iters.contains_key(&s) {
                        s = self.tm.app("iter", vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(o.clone()), Val::k(k)], false);
                        k += 1;
                    }
                    st.iters.insert(s, IterSt { ctx: key, base: o.clone(), pos: Lin::k(0), len: len.sub(&o) });
                    e.res = Val::Sym(s, ot);
                    self.emit(st, e)?;
                    self.ok(Val::Sym(s, ot))
                } else {
                    let v = match seen.as_ref().and_then(|l| l.2.clone()) {
                        Some(v) => v,
                        None => self.err_val("perr", et),
                    };
                    st.looks.retain(|l| l.0 != q);
                    st.looks.push((q, false, Some(v.clone())));
                    e.res = v.clone();
                    self.emit(st, e)?;
                    self.err(v)
                }
            }
            ("Context", "orig" | "orig_at" | "orig_sub") => {
                let o = if item == "orig" { self.ctx_off(st, &a[0], ts[0])? } else { self.to_lin(&a[1]) };
                let len = self.ctx_len(st, &a[0], ts[0])?;
                let n = if item == "orig_sub" { self.to_lin(&a[2]) } else { len.sub(&o) };
                let key = self.ctx_key(st, &a[0])?;
                let q = self.tm.app("can orig", vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(st.facts.reduce(&o)), Val::Lin(st.facts.reduce(&n))], false);
                let seen = st.looks.iter().find(|l| l.0 == q).cloned();
                let ok = match &seen {
                    Some(l) => l.1,
                    None => self.choose(st, 2)? == 0,
                };
                let mut e = Ev::new(EvK::Orig, item);
                e.ctx = Some(key);
                e.at = Some(o.clone());
                e.args = vec![Val::Lin(o.clone()), Val::Lin(n.clone())];
                e.ok = Some(ok);
                e.loc = c.loc.into();
                let (ot, et) = self.is_result(c.dty).unwrap();
                if ok && seen.is_none() {
                    st.looks.push((q, true, None));
                }
                if ok {
                    st.facts.add(&Atom::Ge(len.sub(&o).sub(&n)), &self.tm);
                    let v = self.app(
                        "orig",
                        vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(o), Val::Lin(n)],
                        ot,
                    );
                    e.res = v.clone();
                    self.emit(st, e)?;
                    self.ok(v)
                } else {
                    let v = match seen.as_ref().and_then(|l| l.2.clone()) {
                        Some(v) => v,
                        None => self.err_val("oerr", et),
                    };
                    st.looks.retain(|l| l.0 != q);
                    st.looks.push((q, false, Some(v.clone())));
                    e.res = v.clone();
                    self.emit(st, e)?;
                    self.err(v)
                }
            }
            ("Context", "clone_at") => {
                let o = self.to_lin(&a[1]);
                let key = self.ctx_key(st, &a[0])?;
                let len = self.ctx_len(st, &a[0], ts[0])?;
                let (ot, et) = self.is_result(c.dty).unwrap();
                let ok = self.choose(st, 2)? == 0;
                let mut e = Ev::new(EvK::Opaque, "clone_at");
                e.at = Some(o.clone());
                e.ok = Some(ok);
                if ok {
                    st.facts.add(&Atom::Ge(len.sub(&o)), &self.tm);
                    let s = self.tm.app("clone_at", vec![Val::Sym(key, self.tcx.types.unit), Val::Lin(o.clone())], false);
                    st.off.insert(s, Lin::k(0));
                    st.facts.add(&Atom::Eq(self.key_len(s).sub(&len.sub(&o))), &self.tm);
                    self.emit(st, e)?;
                    self.ok(Val::Sym(s, ot))
                } else {
                    let x = self.err_val("cerr", et);
                    e.res = x.clone();
                    self.emit(st, e)?;
                    self.err(x)
                }
            }
            ("Match", "try_mat") => match self.match_contract(st, EvK::Mat, c, 1, 0, true)? {
                Ok((b, l)) => self.ok(self.span_val(b, l)),
                Err(x) => self.err(x),
            },
            ("Match", "is_mat") => {
                let r = self.match_contract(st, EvK::Mat, c, 1, 0, true)?;
                Val::bool(r.is_ok())
            }
            ("Regex", "try_parse") => match self.match_contract(st, EvK::Parse, c, 0, 1, false)? {
                Ok((b, l)) => self.ok(self.span_val(b, l)),
                Err(x) => self.err(x),
            },
            ("PolicyMatch", "try_mat_policy" | "try_mat_before" | "try_mat_after") => {
                let mut e = Ev::new(EvK::CallFn, item);
                e.args = a.iter().skip(1).map(|x| self.peel_val(st, x)).collect();
                e.at = Some(self.ctx_off(st, &a[0], ts[0])?);
                self.emit(st, e)?;
                match self.match_contract(st, EvK::Mat, c, 1, 0, true)? {
                    Ok((b, l)) => self.ok(self.span_val(b, l)),
                    Err(x) => self.err(x),
                }
            }
            ("Ctor", "construct") => {
                let off = self.ctx_off(st, &a[1], ts[1])?;
                let len = self.ctx_len(st, &a[1], ts[1])?;
                let (ot, et) = self.is_result(c.dty).unwrap();
                let ok = self.choose(st, 2)? == 0;
                let mut e = Ev::new(EvK::Cons, c.name);
                e.subj = self.peel_val(st, &a[0]);
                e.subj_ty = Some(self.peel(ts[0]));
                e.ctx = self.ctx_key(st, &a[1]).ok();
                e.at = Some(off.clone());
                e.ok = Some(ok);
                e.args = vec![self.peel_val(st, &a[2])];
                e.loc = c.loc.into();
                let n = Lin::s(self.tm.fresh(if ok { "adv" } else { "eadv" }, true));
                let no = off.add(&n);
                st.facts.add(&Atom::Ge(len.sub(&no)), &self.tm);
                self.set_ctx_off(st, &a[1], ts[1], no)?;
                let v = if ok {
                    let v = self.fresh("out", ot);
                    e.res = v.clone();
                    self.ok(v)
                } else {
                    let v = self.err_val("cerr", et);
                    e.res = v.clone();
                    self.err(v)
                };
                self.emit(st, e)?;
                v
            }
            ("Handler", "invoke") => {
                let ok = self.choose(st, 2)? == 0;
                let (ot, et) = self.is_result(c.dty).unwrap();
                let mut e = Ev::new(EvK::Invoke, c.name);
                e.subj = self.peel_val(st, &a[0]);
                e.subj_ty = Some(self.peel(ts[0]));
                e.ctx = self.ctx_key(st, &a[1]).ok();
                e.at = Some(self.ctx_off(st, &a[1], ts[1])?);
                e.args = vec![self.peel_val(st, &a[2])];
                e.ok = Some(ok);
                e.loc = c.loc.into();
                let v = if ok {
                    let v = self.fresh("hout", ot);
                    e.res = v.clone();
                    self.ok(v)
                } else {
                    let v = self.err_val("herr", et);
                    e.res = v.clone();
                    self.err(v)
                };
                self.emit(st, e)?;
                v
            }
            ("FallibleMap", "try_map") => {
                let ok = self.choose(st, 2)? == 0;
                let (ot, et) = self.is_result(c.dty).unwrap();
                let mut e = Ev::new(EvK::MapCall, c.name);
                e.subj = self.peel_val(st, &a[0]);
                e.subj_ty = Some(self.peel(ts[0]));
                e.args = vec![a[1].clone()];
                e.ok = Some(ok);
                let v = if ok {
                    let v = self.fresh("mout", ot);
                    e.res = v.clone();
                    self.ok(v)
                } else {
                    let v = self.err_val("merr", et);
                    e.res = v.clone();
                    self.err(v)
                };
                self.emit(st, e)?;
                v
            }
            ("Neu", "is_match") => {
                let subj = self.peel_val(st, &a[0]);
                let x = self.peel_val(st, &a[1]);
                let s = self.tm.app("is_match", vec![subj.clone(), x.clone()], false);
                let r = self.decide(st, &Atom::B(s))?;
                let mut e = Ev::new(EvK::IsMatch, c.name);
                e.subj = subj;
                e.subj_ty = Some(self.peel(ts[0]));
                e.args = vec![x];
                e.ok = Some(r);
                self.emit(st, e)?;
                Val::bool(r)
            }
            ("Neu", "min_length") => {
                let subj = self.peel_val(st, &a[0]);
                let s = self.tm.app("min_length", vec![subj.clone()], true);
                let mut e = Ev::new(EvK::MinLen, c.name);
                e.subj = subj;
                self.emit(st, e)?;
                Val::Lin(Lin::s(s))
            }
            ("NeuCond", "check") => {
                let r = self.choose(st, 3)?;
                let (_, et) = self.is_result(c.dty).unwrap();
                let mut e = Ev::new(EvK::Check, c.name);
                e.subj = self.peel_val(st, &a[0]);
                e.subj_ty = Some(self.peel(ts[0]));
                e.ctx = self.ctx_key(st, &a[1]).ok();
                e.at = Some(self.ctx_off(st, &a[1], ts[1])?);
                e.args = vec![self.peel_val(st, &a[2])];
                e.ok = if r == 2 { None } else { Some(r == 0) };
                e.loc = c.loc.into();
                let v = if r == 2 {
                    let v = self.err_val("kerr", et);
                    e.res = v.clone();
                    self.err(v)
                } else {
                    self.ok(Val::bool(r == 0))
                };
                self.emit(st, e)?;
                v
            }
            _ => return Ok(None),
        };
        Ok(Some(v))
    }

    // ---- anything else ------------------------------------------------------------------
    fn panic_end<T>(&self, st: &mut State<'tcx>, what: &str, loc: &str) -> R<T> {
        let mut ev = Ev::new(EvK::Panic, what);
        ev.loc = loc.into();
        self.emit(st, ev)?;
        self.stats.borrow_mut().panics += 1;
        Err(Stop::End)
    }
    fn deep_arg(&self, st: &mut State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>) -> R<Val<'tcx>> {
        if self.is_ctx_ty(self.peel(t)) {
            let o = self.ctx_off(st, v, t)?;
            let k = self.ctx_key(st, v)?;
            return Ok(Val::agg(0, vec![Val::Sym(k, self.tcx.types.unit), Val::Lin(o)]));
        }
        Ok(self.peel_val(st, v))
    }
    /// A library function whose meaning the analysis does not know: values that depend on it
    /// cannot be compared with what the specification demands.
    fn unmodelled(&self, c: &CallSite<'_, 'tcx>) -> bool {
        if c.did.is_local() {
            return false;
        }
        if self.tcx.trait_of_assoc(c.did).is_some() {
            match Instance::try_resolve(self.tcx, self.env, c.did, c.args) {
                Ok(Some(_)) => {}
                // which of several implementations of the library's own depends on what is not known
                _ if c.args.types().next().is_some_and(|t| matches!(self.peel(t).kind(), ty::Adt(d, _) if !d.did().is_local())) => {}
                _ => return false,
            }
        }
        let item = self.tcx.opt_item_name(c.did).map(|s| s.to_string()).unwrap_or_default();
        let plain = item == "new" && ["Rc::new", "Arc::new", "Box::new", "OnceLock::new", "Mutex::new", "RwLock::new", "Cell::new"].iter().any(|x| c.name.ends_with(x));
        !plain && !UNINTERPRETED.contains(&item.as_str())
    }
    /// Library functions that take elements out of a collection, add others or reorder them.
    fn reshapes(&self, st: &mut State<'tcx>, c: &CallSite<'_, 'tcx>) -> R<Option<Val<'tcx>>> {
        let Some(Val::Ref(p)) = c.argv.first() else { return Ok(None) };
        let item = self.tcx.opt_item_name(c.did).map(|s| s.to_string()).unwrap_or_default();
        if c.did.is_local() || !RESHAPE.contains(&item.as_str()) {
            return Ok(None);
        }
        let v = self.load(st, p);
        if !matches!(v, Val::Coll(..)) {
            return Ok(None);
        }
        let len = self.seq_len(st, p);
        if self.decide(st, &Atom::Eq(len))? && !item.starts_with("extend") && item != "append" {
            return Err(Stop::Incomplete(format!("{item} of an empty collection")));
        }
        let mut e = Ev::new(EvK::ArrSet, &item);
        e.subj = v.clone();
        self.emit(st, e)?;
        let s = self.tm.app(&format!("vec {item}"), vec![v.clone()], false);
        let n = self.fresh("len", self.tcx.types.usize);
        self.store(st, p, Val::Coll(s, self.to_lin(&n)));
        Ok(Some(self.app(&format!("what {item} returns"), vec![v], c.dty)))
    }
    fn opaque(&self, st: &mut State<'tcx>, c: CallSite<'_, 'tcx>) -> R<()> {
        if let Some(v) = self.reshapes(st, &c)? {
            return self.finish(st, &c.dest, v, c.target);
        }
        for t in c.args.types() {
            let p = self.peel(t);
            if matches!(p.kind(), ty::Closure(..)) {
                return Err(Stop::Incomplete(format!("higher-order call {}", c.name)));
            }
        }
        self.stats.borrow_mut().opaque.insert(c.name.to_string());
        // nothing comes back and nothing is changed
        let idle = c.dty.is_unit() && !c.argtys.iter().any(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()));
        // what a reordered slice holds is another value, and known to be
        let item = self.tcx.opt_item_name(c.did).map(|s| s.to_string()).unwrap_or_default();
        let reorder = !c.did.is_local() && c.name.contains("slice") && (item.starts_with("sort") || item == "reverse" || item.starts_with("rotate_"));
        if self.unmodelled(&c) && !idle && !reorder && !c.name.contains("any::type_name") {
            st.g.insert("unk", Val::Str(c.name.into()));
        }
        let mut deep = vec![];
        let mut muts = vec![];
        for (i, a) in c.argv.iter().enumerate() {
            let t = c.argtys.get(i).copied().unwrap_or(self.tcx.types.unit);
            deep.push(self.deep_arg(st, a, t)?);
            if let ty::Ref(_, inner, m) = t.kind() {
                if m.is_mut() {
                    muts.push((i, *inner));
                }
            }
        }
        let mut e = Ev::new(EvK::Opaque, c.name);
        e.args = deep.clone();
        e.loc = c.loc.into();
        let v = if muts.is_empty() {
            let h = if c.args.types().next().is_some() && c.argv.is_empty() {
                format!("{}<{:?}>", c.name, c.args)
            } else {
                c.name.to_string()
            };
            self.app(&h, deep, c.dty)
        } else {
            for (i, inner) in muts {
                if self.is_ctx_ty(inner) {
                    let n = Lin::s(self.tm.fresh("off", true));
                    self.set_ctx_off(st, &c.argv[i].clone(), c.argtys[i], n)?;
                } else if let Val::Ref(p) = &c.argv[i] {
                    let p = p.clone();
                    let f = self.fresh("havoc", inner);
                    self.store(st, &p, f);
                }
            }
            if c.dty.is_ref() && matches!(c.argv.first(), Some(Val::Ref(_))) && c.argtys[0] == c.dty {
                c.argv[0].clone()
            } else {
                self.fresh(c.name, c.dty)
            }
        };
        e.res = v.clone();
        self.emit(st, e)?;
        self.finish(st, &c.dest, v, c.target)
    }
}

/// ASCII classes as intervals of code points
pub fn ascii_class(item: &str) -> Option<&'static [(i128, i128)]> {
    Some(match item {
        "is_ascii" => &[(0, 127)],
        "is_ascii_alphabetic" => &[(65, 90), (97, 122)],
        "is_ascii_alphanumeric" => &[(48, 57), (65, 90), (97, 122)],
        "is_ascii_control" => &[(0, 31), (127, 127)],
        "is_ascii_digit" => &[(48, 57)],
        "is_ascii_graphic" => &[(33, 126)],
        "is_ascii_hexdigit" => &[(48, 57), (65, 70), (97, 102)],
        "is_ascii_lowercase" => &[(97, 122)],
        "is_ascii_punctuation" => &[(33, 47), (58, 64), (91, 96), (123, 126)],
        "is_ascii_uppercase" => &[(65, 90)],
        // space, tab, line feed, form feed, carriage return
        "is_ascii_whitespace" => &[(9, 10), (12, 13), (32, 32)],
        _ => return None,
    })
}

/// Library functions kept as uninterpreted functions: two calls are equal exactly when their
/// arguments are, and no rewriting of one in terms of another is expected.
const RESHAPE: &[&str] = &[
    "drain", "retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
    "sort_unstable_by_key", "split_off", "append", "extend_from_slice", "extend_from_within", "resize",
];
const UNINTERPRETED: &[&str] = &[
    "starts_with", "ends_with", "contains", "is_char_boundary", "into", "from", "try_into", "try_from", "from_str", "from_utf8", "from_utf8_lossy", "parse",
    "to_vec", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_ascii", "trim_ascii_start", "trim_ascii_end", "replace", "replacen", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case",
    "swap_bytes", "reverse_bits", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "clone", "to_string", "to_owned", "into_owned", "hash",
    "count_ones", "rotate_left", "rotate_right", "pow", "abs", "leading_zeros", "trailing_zeros", "wrapping_neg", "wrapping_sub", "wrapping_mul",
];
