//! Searching for the occurrences of a pattern: a typestate over the rounds of the search.
//! A round matches the pattern once where the search stands, lets the (given or built-in) selection
//! decide on the outcome, hands the selected span to the handler, and ends either with the handler's
//! value as the result or with the next round. The search gives up only at the end of the input.
use crate::interp::*;
use crate::oracle::describe;
use crate::spec::Installed;
use crate::term::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

const P: &str = "C20";

#[derive(Clone, Copy, PartialEq)]
enum Select {
    /// the user's function
    User,
    /// non-empty matches; anything else moves on by one
    Skip,
    /// non-empty matches; anything else ends the search
    Stop,
}

struct Search<'tcx> {
    sel: Select,
    all: bool,
    ctx: Val<'tcx>,
    ctxt: Ty<'tcx>,
    key: Option<Sym>,
    pat: Val<'tcx>,
    func: Val<'tcx>,
    map: Val<'tcx>,
}

/// where a round stands
const READY: u32 = 0;
const MATCHED: u32 = 1;
const SELECTED: u32 = 2;
const HANDED: u32 = 3;

impl<'tcx> Search<'tcx> {
    fn bad(&self, cx: &Cx<'tcx>, st: &State<'tcx>, what: &str) {
        cx.report(st, P, what.into());
    }
    fn step(&self, st: &State<'tcx>) -> u32 {
        st.g.get("step").and_then(|v| v.variant()).unwrap_or(READY)
    }
    fn set(&self, st: &mut State<'tcx>, s: u32, ok: bool, res: Val<'tcx>, pos: Lin) {
        st.g.insert("step", Val::agg(s, vec![]));
        st.g.insert("ok", Val::agg(ok as u32, vec![]));
        st.g.insert("res", res);
        st.g.insert("pos", Val::Lin(pos));
    }
    fn ok(&self, st: &State<'tcx>) -> bool {
        st.g.get("ok").and_then(|v| v.variant()) == Some(1)
    }
    fn res(&self, st: &State<'tcx>) -> Val<'tcx> {
        st.g.get("res").cloned().unwrap_or(Val::Undef)
    }
    fn pos(&self, st: &State<'tcx>) -> Lin {
        st.g.get("pos").and_then(|v| v.lin().cloned()).unwrap_or_default()
    }
    fn span_len(&self, cx: &Cx<'tcx>, v: &Val<'tcx>) -> Option<Lin> {
        match v {
            Val::Agg(_, f) if f.len() == 2 => f[cx.span_ix().1].lin().cloned(),
            _ => None,
        }
    }
    fn now(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) -> R<Lin> {
        cx.ctx_off(st, &self.ctx, self.ctxt)
    }
    fn len(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) -> R<Lin> {
        cx.ctx_len(st, &self.ctx, self.ctxt)
    }
    /// position at which the next round has to start; reports a round that was broken off
    fn next(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) -> R<Lin> {
        let pos = self.pos(st);
        Ok(match self.step(st) {
            READY => pos,
            MATCHED if self.sel == Select::User => {
                self.bad(cx, st, "the outcome of a match is not given to the selection");
                pos
            }
            MATCHED => {
                if self.ok(st) {
                    let Some(n) = self.span_len(cx, &self.res(st)) else { return Err(Stop::Incomplete("span".into())) };
                    if cx.decide(st, &Atom::Ge(n.addk(-1)))? {
                        self.bad(cx, st, "a match that is not empty is passed over");
                        return Ok(pos);
                    }
                }
                let len = self.len(cx, st)?;
                if self.sel == Select::Stop {
                    len
                } else if cx.decide(st, &Atom::Ge(len.sub(&pos).addk(-1)))? {
                    pos.addk(1)
                } else {
                    pos
                }
            }
            SELECTED => {
                if self.ok(st) {
                    self.bad(cx, st, "a selected match is not handed over");
                }
                pos
            }
            _ => {
                if self.ok(st) {
                    self.bad(cx, st, "the search goes on after a hit");
                }
                pos
            }
        })
    }
    fn of_ctx(&self, cx: &Cx<'tcx>, st: &State<'tcx>, ev: &Ev<'tcx>) {
        if ev.ctx.is_some() && self.key.is_some() && ev.ctx != self.key {
            self.bad(cx, st, "another context is used");
        }
    }
    fn is(&self, cx: &Cx<'tcx>, st: &State<'tcx>, v: &Val<'tcx>, want: &Val<'tcx>) -> bool {
        let (a, b) = (cx.peel_val(st, v), cx.peel_val(st, want));
        v == want || a == b || cx.same(st, &a, &b)
    }
}

impl<'tcx> Monitor<'tcx> for Search<'tcx> {
    fn event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        if ev.k == EvK::Panic {
            cx.report(st, "C21", format!("may panic: {}", ev.name));
            return Ok(());
        }
        let relevant = matches!(ev.k, EvK::Mat | EvK::Parse | EvK::Invoke | EvK::CallFn | EvK::Cons | EvK::MapCall | EvK::Next | EvK::Check);
        if !relevant {
            return Ok(());
        }
        if self.all && !st.g.contains_key("phase") {
            self.bad(cx, st, "something is run before the first result is asked for");
            return Ok(());
        }
        match ev.k {
            EvK::Mat => {
                cx.obligation("attempt");
                let want = self.next(cx, st)?;
                self.of_ctx(cx, st, ev);
                if !self.is(cx, st, &ev.subj, &self.pat) {
                    self.bad(cx, st, "another pattern is matched");
                }
                let at = ev.at.clone().unwrap_or_default();
                if !cx.eq(st, &at, &want) {
                    self.bad(cx, st, "the next attempt is made at another position");
                }
                let len = self.len(cx, st)?;
                if !st.facts.ge(&cx.tm, &len.sub(&at).addk(-1)) {
                    self.bad(cx, st, "an attempt is made at the end of the input");
                }
                let end = self.now(cx, st)?;
                let end = match (&ev.ok, &ev.res) {
                    (Some(true), Val::Agg(_, f)) => f.iter().filter_map(|x| x.lin()).fold(Lin::k(0), |s, x| s.add(x)),
                    (Some(false), _) => at,
                    _ => end,
                };
                self.set(st, MATCHED, ev.ok == Some(true), ev.res.clone(), end);
            }
            EvK::CallFn if self.sel == Select::User && self.is(cx, st, &ev.subj, &self.func) => {
                cx.obligation("selection");
                self.of_ctx(cx, st, ev);
                if self.step(st) != MATCHED {
                    self.bad(cx, st, "the selection is asked without a match");
                    return Ok(());
                }
                let (ok, res) = (self.ok(st), self.res(st));
                let good = ev.args.get(1).is_some_and(|v| match v {
                    Val::Agg(k, f) => (*k == 0) == ok && f.first().is_some_and(|x| self.is(cx, st, x, &res)),
                    _ => false,
                });
                if !good {
                    self.bad(cx, st, "the selection gets another outcome");
                }
                if !ev.at.as_ref().is_some_and(|a| cx.eq(st, a, &self.pos(st))) {
                    self.bad(cx, st, "the selection is asked at another position");
                }
                let pos = self.now(cx, st)?;
                let (some, v) = match &ev.res {
                    Val::Agg(k, f) => (*k == 1, f.first().cloned().unwrap_or(Val::Undef)),
                    _ => return Err(Stop::Incomplete("selection".into())),
                };
                self.set(st, SELECTED, some, v, pos);
            }
            EvK::Invoke => {
                cx.obligation("handler-call");
                self.of_ctx(cx, st, ev);
                let own = match self.sel {
                    Select::User => self.is(cx, st, &ev.subj, &self.map),
                    _ => ev.subj_ty.is_some_and(|t| cx.adt_name(cx.peel(t)) == "Extract"),
                };
                if !own {
                    self.bad(cx, st, "another handler is used");
                }
                let due = match (self.sel, self.step(st)) {
                    (Select::User, SELECTED) => self.ok(st),
                    (Select::User, _) => false,
                    (_, MATCHED) if self.ok(st) => {
                        let Some(n) = self.span_len(cx, &self.res(st)) else { return Err(Stop::Incomplete("span".into())) };
                        cx.decide(st, &Atom::Ge(n.addk(-1)))?
                    }
                    _ => false,
                };
                if !due {
                    self.bad(cx, st, "the handler is called without a selected match");
                } else if !ev.args.first().is_some_and(|v| self.is(cx, st, v, &self.res(st))) {
                    self.bad(cx, st, "the handler gets another span");
                }
                if !ev.at.as_ref().is_some_and(|a| cx.eq(st, a, &self.pos(st))) {
                    self.bad(cx, st, "the handler is called at another position");
                }
                let pos = self.now(cx, st)?;
                self.set(st, HANDED, ev.ok == Some(true), ev.res.clone(), pos);
                if ev.ok != Some(true) {
                    // the handler refused: the next round starts here
                    self.set(st, READY, false, Val::Undef, self.pos(st));
                }
            }
            _ => self.bad(cx, st, "something else is run"),
        }
        Ok(())
    }

    fn head(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) {
        if self.step(st) == READY || (self.all && !st.g.contains_key("phase")) {
            return;
        }
        // a round that is over is forgotten
        let pos = self.pos(st);
        let Ok(now) = cx.ctx_off(st, &self.ctx, self.ctxt) else { return };
        let over = match self.step(st) {
            SELECTED => !self.ok(st) && cx.eq(st, &now, &pos),
            MATCHED if self.sel != Select::User => {
                let empty = !self.ok(st)
                    || self.span_len(cx, &self.res(st)).is_some_and(|n| st.facts.entails(&cx.tm, &Atom::Eq(n)));
                let Ok(len) = cx.ctx_len(st, &self.ctx, self.ctxt) else { return };
                let want = match self.sel {
                    Select::Stop => Some(len),
                    _ if st.facts.ge(&cx.tm, &len.sub(&pos).addk(-1)) => Some(pos.addk(1)),
                    _ if st.facts.ge(&cx.tm, &pos.sub(&len)) => Some(pos),
                    _ => None,
                };
                empty && want.is_some_and(|w| cx.eq(st, &w, &now))
            }
            _ => false,
        };
        if over {
            self.set(st, READY, false, Val::Undef, now);
        }
    }

    fn exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()> {
        if self.all && !st.g.contains_key("phase") {
            return self.ask(cx, st, ret);
        }
        cx.obligation("result");
        match ret {
            Val::Agg(1, f) => {
                if self.step(st) != HANDED || !self.ok(st) {
                    self.bad(cx, st, "a result without a handled match");
                } else if !f.first().is_some_and(|v| self.is(cx, st, v, &self.res(st))) {
                    self.bad(cx, st, "another value than the handler's is returned");
                }
                let (now, pos) = (self.now(cx, st)?, self.pos(st));
                if !cx.eq(st, &now, &pos) {
                    self.bad(cx, st, "the position moves after the hit");
                }
            }
            Val::Agg(0, _) => {
                let want = self.next(cx, st)?;
                let now = self.now(cx, st)?;
                if !cx.eq(st, &now, &want) {
                    self.bad(cx, st, "the search ends at another position");
                }
                let len = self.len(cx, st)?;
                if !st.facts.ge(&cx.tm, &now.sub(&len)) {
                    self.bad(cx, st, "the search gives up before the end of the input");
                }
            }
            _ => return Err(Stop::Incomplete("result of the search".into())),
        }
        Ok(())
    }
}

impl<'tcx> Search<'tcx> {
    /// The iterator is there: ask it for a result.
    fn ask(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()> {
        st.g.insert("phase", Val::agg(1, vec![]));
        let t = cx.root_ret;
        let slot = Root::Loc(0, 900_000);
        st.mem.insert(slot, ret.clone());
        let mut p = Ptr::root(slot);
        let (mut pt, mut t) = (None, cx.subst_ty(t));
        // `impl Iterator` stands for a concrete type
        for _ in 0..8 {
            let ty::Alias(_, a) = t.kind() else { break };
            let def_id = match a.kind {
                ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                ty::AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    if !cx.tcx.is_impl_trait_in_trait(d) {
                        break;
                    }
                    d
                }
                _ => break,
            };
            t = cx.subst_ty(cx.tcx.type_of(def_id).instantiate(cx.tcx, a.args).skip_norm_wip());
        }
        if cx.adt_name(t) == "FromFn" {
            let ft = cx.variant_fields(t, 0)[0];
            p.path.push(PE::Field(0, 0, ft));
            pt = Some(t);
            t = ft;
        }
        let _ = pt;
        // a new call sees the search where the context stands, which is anywhere
        let n = Lin::s(cx.tm.fresh("off", true));
        cx.set_ctx_off(st, &self.ctx, self.ctxt, n.clone())?;
        self.set(st, READY, false, Val::Undef, n);
        if let ty::Closure(cd, ca) = t.kind() {
            let Some(body) = cx.body(ty::Instance::new_raw(*cd, ca)) else {
                return Err(Stop::Incomplete("closure body".into()));
            };
            return cx.push_frame(st, body, vec![Val::Ref(p)], None, None);
        }
        let Some(tr) = cx.tcx.get_diagnostic_item(rustc_span::sym::Iterator) else {
            return Err(Stop::Incomplete("Iterator".into()));
        };
        let nx = cx.tcx.associated_item_def_ids(tr).iter().copied().find(|d| cx.tcx.item_name(*d).as_str() == "next").unwrap();
        let args = cx.tcx.mk_args(&[t.into()]);
        let Ok(Some(i)) = ty::Instance::try_resolve(cx.tcx, cx.env, nx, args) else {
            return Err(Stop::Incomplete(format!("next of {t}")));
        };
        let Some(body) = cx.body(i) else { return Err(Stop::Incomplete(format!("next of {t}"))) };
        cx.push_frame(st, body, vec![Val::Ref(p)], None, None)
    }
}

pub fn install<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, did: DefId, imp: Option<DefId>) -> Result<Installed, String> {
    let f = describe(cx, did, imp);
    if f.tr != "MatchMulti" {
        return Err("no rule".into());
    }
    let (sel, all) = match f.item.as_str() {
        "find" => (Select::Skip, false),
        "find_with" => (Select::User, false),
        "find_all" => (Select::Skip, true),
        "find_all_with" => (Select::User, true),
        "match_seq" => (Select::Stop, true),
        _ => return Err("no rule".into()),
    };
    let args: Vec<Val<'tcx>> =
        (1..=cx.root_args.len() as u32).map(|i| st.mem.get(&Root::Loc(0, i)).cloned().unwrap_or(Val::Undef)).collect();
    let t = cx.root_args[0];
    let e = |_| "no context".to_string();
    let off = cx.ctx_off(st, &args[0], t).map_err(e)?;
    let len = cx.ctx_len(st, &args[0], t).map_err(e)?;
    st.facts.add(&Atom::Ge(len.sub(&off)), &cx.tm);
    let s = Search {
        sel,
        all,
        ctx: args[0].clone(),
        ctxt: t,
        key: cx.ctx_key(st, &args[0]).ok(),
        pat: args[1].clone(),
        func: args.get(2).cloned().unwrap_or(Val::Undef),
        map: args.get(3).cloned().unwrap_or(Val::Undef),
    };
    s.set(st, READY, false, Val::Undef, off);
    *cx.mon.borrow_mut() = Some(Rc::new(s));
    Ok(Installed { rule: format!("search C20 {}", f.item), own: P, props: vec![P, "C21"] })
}
