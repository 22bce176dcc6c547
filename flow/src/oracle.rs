//! Functions whose result is fixed by their arguments: units, conversions, containers of spans,
//! the context primitives, builders. For every exit of the analysed function the rule computes,
//! under the path's own facts, the value the specification demands and compares it with the value
//! (and the state) the function leaves behind. A rule may split a path further while it does so.
use crate::interp::*;
use crate::models::ascii_class;
use crate::spec::Installed;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

pub struct Rec<'tcx> {
    pub k: u32,
    pub name: Rc<str>,
    pub subj: Val<'tcx>,
    pub args: Vec<Val<'tcx>>,
    pub ok: Option<bool>,
    pub res: Val<'tcx>,
    pub at: Option<Lin>,
    pub ctx: Option<Sym>,
    /// position right after it
    pub post: Option<Lin>,
}

pub struct O<'a, 'tcx> {
    pub cx: &'a Cx<'tcx>,
    pub st: &'a mut State<'tcx>,
    pub ret: Val<'tcx>,
    pub m: &'a Oracle<'tcx>,
}

type Run<'tcx> = Box<dyn Fn(&mut O<'_, 'tcx>) -> R<()> + 'tcx>;

pub struct Oracle<'tcx> {
    pub own: &'static str,
    /// further properties that a wrong outcome breaks
    pub echo: Vec<&'static str>,
    pub label: String,
    pub log: bool,
    pub args: Vec<Val<'tcx>>,
    pub tys: Vec<Ty<'tcx>>,
    pub me: Val<'tcx>,
    pub run: Run<'tcx>,
    /// panics that belong to the documented behaviour
    pub may_panic: fn(&str) -> bool,
    pub each: Option<Each<'tcx>>,
    pub names: Vec<String>,
}

/// What a loop over the elements of a sequence has to do with each of them.
pub enum Each<'tcx> {
    /// the result says whether some element has the property
    Any(Box<dyn Fn(&Cx<'tcx>, &State<'tcx>, &Val<'tcx>) -> Option<bool> + 'tcx>),
    /// every element is emptied (of these rows)
    Clear(Option<(Ptr<'tcx>, Ty<'tcx>)>),
    /// the first filled slot from a position on is looked for
    Filled { seq: Ptr<'tcx>, et: Ty<'tcx>, from: Lin, len: Lin },
    /// the filled slots from a position on are counted
    Count { seq: Ptr<'tcx>, et: Ty<'tcx>, from: Lin, len: Lin },
}

impl<'a, 'tcx> O<'a, 'tcx> {
    pub fn bad(&self, what: impl Into<String>) {
        let w = what.into();
        for p in &self.m.echo {
            self.cx.report(self.st, p, w.clone());
        }
        // the wrong error is also wrong as an error
        if self.m.own != "C15" && ["error", "another code", "turned around"].iter().any(|x| w.contains(x)) {
            self.cx.report(self.st, "C15", w.clone());
        }
        self.cx.report(self.st, self.m.own, w);
    }
    pub fn undecided<T>(&self, what: &str) -> R<T> {
        Err(Stop::Incomplete(format!("undecided: {what}")))
    }
    pub fn arg(&self, i: usize) -> Val<'tcx> {
        self.m.args[i - 1].clone()
    }
    /// value of argument `i` at entry, references followed
    pub fn argv(&self, i: usize) -> Val<'tcx> {
        let mut v = self.arg(i);
        for _ in 0..8 {
            match &v {
                Val::Ref(p) => match p.root {
                    Root::Ext(s) => {
                        let mut x = self.cx.ext_init(s);
                        for e in &p.path {
                            x = self.cx.project(&x, e);
                        }
                        v = x;
                    }
                    _ => break,
                },
                _ => break,
            }
        }
        v
    }
    /// current value of what argument `i` points to
    pub fn now(&self, i: usize) -> Val<'tcx> {
        match self.arg(i) {
            Val::Ref(p) => self.cx.load(self.st, &p),
            v => v,
        }
    }
    pub fn me(&self) -> Val<'tcx> {
        self.m.me.clone()
    }
    pub fn me_ty(&self) -> Ty<'tcx> {
        self.cx.peel(self.m.tys[0])
    }
    pub fn fld(&self, v: &Val<'tcx>, t: Ty<'tcx>, i: usize) -> Val<'tcx> {
        let ft = self.cx.variant_fields(t, 0)[i];
        self.cx.project(v, &PE::Field(0, i as u32, ft))
    }
    /// index of the only field whose type satisfies `f`
    pub fn ix(&self, t: Ty<'tcx>, f: impl Fn(Ty<'tcx>) -> bool) -> Option<usize> {
        self.cx.variant_fields(t, 0).iter().position(|x| f(*x))
    }
    pub fn named(&self, v: &Val<'tcx>, t: Ty<'tcx>, name: &str, pos: usize) -> Val<'tcx> {
        let i = self.cx.field_ix(t, name).unwrap_or(pos);
        self.fld(v, t, i)
    }
    pub fn is(&mut self, a: Atom) -> R<bool> {
        self.cx.decide(self.st, &a)
    }
    pub fn truth(&mut self, v: &Val<'tcx>) -> R<bool> {
        let v = self.cx.peel_val(self.st, v);
        let c = self.cx.to_cond(&v);
        self.cx.decide_c(self.st, &c)
    }
    pub fn same(&self, a: &Val<'tcx>, b: &Val<'tcx>) -> bool {
        let (x, y) = (self.cx.peel_val(self.st, a), self.cx.peel_val(self.st, b));
        self.cx.same(self.st, a, b) || self.cx.same(self.st, &x, &y)
    }
    pub fn eq(&self, a: &Lin, b: &Lin) -> bool {
        self.cx.eq(self.st, a, b)
    }
    pub fn show(&self, v: &Val<'tcx>) -> String {
        self.cx.tm.show(v)
    }
    pub fn ret_lin(&self) -> Lin {
        self.cx.to_lin(&self.ret)
    }
    /// split on the variant of a value of an enum type
    pub fn case(&mut self, v: &Val<'tcx>, t: Ty<'tcx>) -> R<(u32, Val<'tcx>)> {
        let v = self.cx.peel_val(self.st, v);
        let t = self.cx.peel(t);
        match &v {
            Val::Agg(x, _) => Ok((*x, v.clone())),
            Val::Sym(s, st) => {
                let ty::Adt(d, _) = t.kind() else { return self.undecided("variant of a non-enum") };
                let n = d.variants().len() as u32;
                let l = Lin::s(self.cx.tm.app("discr", vec![v.clone()], true));
                let _ = st;
                // all but one excluded already
                let left: Vec<u32> = (0..n).filter(|i| !self.st.facts.entails(&self.cx.tm, &Atom::Ne(l.addk(-(*i as i128))))).collect();
                if let [i] = left[..] {
                    return Ok((i, self.cx.explode(*s, t, i)));
                }
                for i in 0..n - 1 {
                    if self.is(Atom::Eq(l.addk(-(i as i128))))? {
                        return Ok((i, self.cx.explode(*s, t, i)));
                    }
                }
                Ok((n - 1, self.cx.explode(*s, t, n - 1)))
            }
            _ => self.undecided("variant of an unknown value"),
        }
    }
    pub fn ret_case(&mut self) -> R<(u32, Val<'tcx>)> {
        let r = self.ret.clone();
        let t = self.cx.root_ret;
        self.case(&r, t)
    }
    pub fn f0(&self, v: &Val<'tcx>) -> Val<'tcx> {
        v.fld(0).cloned().unwrap_or(Val::Undef)
    }
    pub fn want_bool(&mut self, want: bool, what: &str) -> R<()> {
        self.cx.obligation("verdict");
        let r = self.ret.clone();
        if let Val::Undef = r {
            return self.undecided("result");
        }
        let got = self.truth(&r)?;
        if got != want {
            self.bad(format!("{what}: the result is {got}"));
        }
        Ok(())
    }
    pub fn want_lin(&mut self, want: &Lin, what: &str) {
        self.cx.obligation("value");
        let r = self.ret_lin();
        if !self.eq(&r, want) {
            self.bad(what);
        }
    }
    pub fn want_same(&mut self, got: &Val<'tcx>, want: &Val<'tcx>, what: &str) {
        self.cx.obligation("value");
        if !self.same(got, want) {
            self.bad(what);
        }
    }
    /// the function returns the reference it was given
    pub fn want_self(&mut self, what: &str) {
        let a = self.arg(1);
        let r = self.ret.clone();
        self.cx.obligation("value");
        if r != a {
            self.bad(what);
        }
    }
    pub fn err_is(&mut self, v: &Val<'tcx>, name: &str) -> R<bool> {
        let et = match self.cx.is_result(self.cx.root_ret) {
            Some((_, e)) => e,
            None => return Ok(false),
        };
        let ty::Adt(d, _) = et.kind() else { return Ok(false) };
        let want = d.variants().iter_enumerated().find(|(_, y)| y.name.as_str() == name).map(|x| x.0.as_u32());
        let Some(want) = want else { return Ok(false) };
        Ok(match v {
            Val::Agg(i, _) => *i == want,
            _ => false,
        })
    }
    /// the function fails with the given code
    pub fn want_err(&mut self, name: &str, what: &str) -> R<()> {
        self.cx.obligation("error");
        let (v, f) = self.ret_case()?;
        let e = self.f0(&f);
        if v != 1 {
            self.bad(format!("{what}: succeeds"));
        } else if !self.err_is(&e, name)? {
            self.bad(format!("{what}: fails with another code than {name}"));
        }
        Ok(())
    }
    pub fn want_ok(&mut self, val: &Val<'tcx>, what: &str) -> R<()> {
        self.cx.obligation("value");
        let (v, f) = self.ret_case()?;
        let x = self.f0(&f);
        if v != 0 {
            self.bad(format!("{what}: fails"));
        } else if !self.same(&x, val) {
            self.bad(format!("{what}: another value"));
        }
        Ok(())
    }
    pub fn want_some(&mut self, val: &Val<'tcx>, what: &str) -> R<()> {
        self.cx.obligation("value");
        let (v, f) = self.ret_case()?;
        let x = self.f0(&f);
        if v != 1 {
            self.bad(format!("{what}: None"));
        } else if !self.same(&x, val) {
            self.bad(format!("{what}: another value"));
        }
        Ok(())
    }
    pub fn want_none(&mut self, what: &str) -> R<()> {
        self.cx.obligation("value");
        let (v, _) = self.ret_case()?;
        if v != 0 {
            self.bad(format!("{what}: Some"));
        }
        Ok(())
    }
    pub fn log(&self) -> Vec<Rec<'tcx>> {
        let mut o = vec![];
        if let Some(Val::Agg(_, f)) = self.st.g.get("log") {
            for e in f.iter() {
                let Val::Agg(k, x) = e else { continue };
                o.push(Rec {
                    k: *k,
                    subj: x[0].clone(),
                    args: match &x[1] {
                        Val::Agg(_, a) => (**a).clone(),
                        _ => vec![],
                    },
                    ok: match x[2] {
                        Val::Agg(1, _) => Some(true),
                        Val::Agg(2, _) => Some(false),
                        _ => None,
                    },
                    res: x[3].clone(),
                    at: x[4].lin().cloned(),
                    ctx: match &x[5] {
                        Val::Sym(s, _) => Some(*s),
                        _ => None,
                    },
                    post: x[7].lin().cloned(),
                    name: match &x[6] {
                        Val::Str(s) => s.clone(),
                        _ => "".into(),
                    },
                });
            }
        }
        o
    }
    pub fn only(&self, ks: &[EvK]) -> Vec<Rec<'tcx>> {
        self.log().into_iter().filter(|r| ks.iter().any(|k| *k as u32 == r.k)).collect()
    }
    /// the single event among the given kinds
    pub fn one(&self, ks: &[EvK], what: &str) -> R<Option<Rec<'tcx>>> {
        let mut l = self.only(ks);
        self.cx.obligation("call");
        if l.len() != 1 {
            if self.log().iter().any(|r| r.k == EvK::Opaque as u32) {
                return self.undecided("calls not understood");
            }
            self.bad(format!("{what}: {} calls instead of one", l.len()));
            return Ok(None);
        }
        Ok(l.pop())
    }
    /// the function's result is the outcome of `r`
    pub fn want_outcome(&mut self, r: &Rec<'tcx>, what: &str) -> R<()> {
        self.cx.obligation("value");
        let (v, f) = self.ret_case()?;
        let x = self.f0(&f);
        let (want, val) = match r.ok {
            Some(true) => (0, r.res.fld(0).cloned().filter(|_| matches!(&r.res, Val::Agg(..)) && r.k == EvK::CallFn as u32).unwrap_or(r.res.clone())),
            Some(false) => (1, r.res.fld(0).cloned().filter(|_| r.k == EvK::CallFn as u32).unwrap_or(r.res.clone())),
            None => return self.undecided(what),
        };
        if v != want {
            self.bad(format!("{what}: the outcome is turned around"));
        } else if !self.same(&x, &val) && !self.conv(&x, &val) {
            self.bad(format!("{what}: another {} is returned", if want == 0 { "value" } else { "error" }));
        }
        Ok(())
    }
    /// exit of a search loop over the elements of the sequence at `p`
    pub fn any_exit(&mut self, p: Option<&Ptr<'tcx>>) -> R<()> {
        let Some(Each::Any(f)) = &self.m.each else { return self.undecided("search") };
        let r = self.ret.clone();
        let got = self.truth(&r)?;
        let cur = self.st.g.get("cur").cloned().unwrap_or(Val::Undef);
        self.cx.obligation("verdict");
        if let (Some(p), Some(Val::Ref(q))) = (p, self.st.g.get("seq")) {
            let (a, b) = (self.cx.load(self.st, p), self.cx.load(self.st, q));
            if !self.cx.same(self.st, &a, &b) {
                self.bad("another sequence is searched");
            }
        }
        if got {
            if cur == Val::Undef {
                if self.st.g.contains_key("seq") {
                    self.bad("found without such an element");
                    return Ok(());
                }
                return self.undecided("search");
            }
            if f(self.cx, self.st, &cur) != Some(true) {
                self.bad("found without such an element");
            }
        } else if !self.st.g.contains_key("end") {
            if !self.st.g.contains_key("seq") {
                // no loop: the elements were not all looked at unless there are none, or some call did it
                if self.log().iter().any(|r| r.k == EvK::Opaque as u32) {
                    return self.undecided("search");
                }
                if let Some(p) = p {
                    let n = self.cx.seq_len(self.st, p);
                    if !self.is(Atom::Ge(n.addk(-2)))? {
                        return self.undecided("search of at most one element");
                    }
                }
            }
            self.bad("given up before the last element");
        } else if cur != Val::Undef && f(self.cx, self.st, &cur) == Some(true) {
            self.bad("not found although there is such an element");
        }
        Ok(())
    }
    /// all rows were emptied (`n` rows), or the one row given was (`n` slots)
    pub fn cleared(&mut self, n: &Lin, one: Option<(&Lin, bool)>) -> R<()> {
        self.cx.obligation("cleared");
        let num = |o: &Self, k: &str| o.st.g.get(k).and_then(|v| v.lin().cloned());
        match one {
            None => {
                let r = num(self, "rows").unwrap_or_default();
                if !self.eq(&r, n) {
                    if !self.st.g.contains_key("walked") && !self.st.g.contains_key("row") {
                        return self.undecided("how the groups are emptied");
                    }
                    self.bad("not every group is emptied");
                }
            }
            Some((id, _)) => {
                let row = num(self, "row");
                match row {
                    Some(i) => {
                        if !self.eq(&i, id) {
                            self.bad("another group is emptied");
                        } else if !self.st.g.contains_key("full") {
                            let c = num(self, "col").unwrap_or_default();
                            if !self.eq(&c, n) {
                                self.bad("not every slot of the group is emptied");
                            }
                        }
                    }
                    None => {
                        if !self.is(Atom::Eq(n.clone()))? {
                            self.bad("the group is not emptied");
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn conv(&self, got: &Val<'tcx>, want: &Val<'tcx>) -> bool {
        if let Val::Sym(s, _) = got {
            if let SymKind::App(h, a) = self.cx.tm.kind(*s) {
                if h.ends_with("Into::into") || h.ends_with("From::from") {
                    return a.len() == 1 && self.same(&a[0], want);
                }
            }
        }
        false
    }
    /// a saturating difference whose sign is known by now
    pub fn ssub(&self, l: &Lin) -> Lin {
        if let Some(s) = l.as_sym() {
            if let SymKind::App(h, a) = self.cx.tm.kind(s) {
                if let ("ssub", Some(Val::Lin(x)), Some(Val::Lin(y))) = (&*h, a.first(), a.get(1)) {
                    let d = x.sub(y);
                    if self.st.facts.ge(&self.cx.tm, &d) {
                        return d;
                    }
                    if self.st.facts.ge(&self.cx.tm, &d.neg()) {
                        return Lin::k(0);
                    }
                }
            }
        }
        l.clone()
    }
    /// head and arguments of an uninterpreted value
    /// is `v` a piece cut out of something?
    pub fn cut_from(&self, v: &Val<'tcx>) -> bool {
        self.m.cut(v, self.cx)
    }
    pub fn app_of(&self, v: &Val<'tcx>) -> Option<(Rc<str>, Vec<Val<'tcx>>)> {
        let s = match v {
            Val::Sym(s, _) => *s,
            Val::Lin(l) => l.as_sym()?,
            Val::Bool(Cond::A(Atom::B(s) | Atom::NB(s))) => *s,
            Val::Ref(p) => match p.root {
                Root::Ext(s) if p.path.is_empty() => s,
                _ => return None,
            },
            _ => return None,
        };
        match self.cx.tm.kind(s) {
            SymKind::App(h, a) => Some((h, a)),
            _ => None,
        }
    }
    /// where the elements of a sequence value live
    pub fn seq_ptr(&self, v: &Val<'tcx>, t: Ty<'tcx>) -> Option<Ptr<'tcx>> {
        let t = self.cx.peel(t);
        let v = match v {
            Val::Ref(p) => {
                if !matches!(t.kind(), ty::Adt(..)) {
                    return Some(p.clone());
                }
                self.cx.load(self.st, p)
            }
            v => v.clone(),
        };
        if let ty::Adt(_, a) = t.kind() {
            let inner = match self.cx.adt_name(t).as_str() {
                "Vec" => Ty::new_slice(self.cx.tcx, a.type_at(0)),
                "String" => self.cx.tcx.types.str_,
                _ => return None,
            };
            let r = self.cx.app("deref", vec![v], Ty::new_imm_ref(self.cx.tcx, self.cx.tcx.lifetimes.re_erased, inner));
            if let Val::Ref(p) = r {
                return Some(p);
            }
        }
        None
    }
    /// the part `b..e` of a sequence, if it exists
    pub fn part(&mut self, p: &Ptr<'tcx>, is_str: bool, b: &Lin, e: &Lin) -> R<Option<Val<'tcx>>> {
        let len = self.cx.seq_len(self.st, p);
        if !self.is(Atom::Ge(e.sub(b)))? || !self.is(Atom::Ge(len.sub(e)))? {
            return Ok(None);
        }
        if is_str && !self.cx.boundaries(self.st, p, b, e, &len)? {
            return Ok(None);
        }
        let t = if is_str {
            self.cx.tcx.types.str_
        } else {
            match self.cx.load(self.st, p) {
                Val::Sym(_, t) => t,
                _ => self.cx.tcx.types.unit,
            }
        };
        let rt = Ty::new_imm_ref(self.cx.tcx, self.cx.tcx.lifetimes.re_erased, t);
        Ok(Some(self.cx.sub_slice(self.st, p, b, e, rt)))
    }
}

impl<'tcx> Monitor<'tcx> for Oracle<'tcx> {
    fn event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        match ev.k {
            EvK::Panic => {
                let poisoned = st.g.contains_key("poisoned");
                if !poisoned && !(self.may_panic)(&ev.name) {
                    cx.report(st, "C21", format!("may panic: {}", ev.name));
                    if self.own != "C21" {
                        cx.report(st, self.own, format!("may panic: {}", ev.name));
                    }
                }
                return Ok(());
            }
            EvK::Lock if ev.ok == Some(false) => {
                st.g.insert("poisoned", Val::agg(1, vec![]));
            }
            _ => {}
        }
        match &self.each {
            Some(Each::Any(_)) => {
                if ev.k == EvK::ItNext {
                    self.element_done(cx, st);
                    if ev.ok == Some(true) {
                        let v = cx.peel_val(st, &ev.res);
                        st.g.insert("cur", v);
                        st.g.insert("seq", ev.subj.clone());
                        // counted from the front and from the back
                        let back = ev.name == "next_back";
                        let key = if back { "from" } else { "cnt" };
                        let n = st.g.get(key).and_then(|v| v.lin().cloned()).unwrap_or_else(|| match &ev.subj {
                            Val::Ref(p) if back => cx.seq_len(st, p),
                            _ => Lin::k(0),
                        });
                        let want = if back { n.addk(-1) } else { n.clone() };
                        if !ev.args[0].lin().is_some_and(|p| cx.eq(st, p, &want)) {
                            cx.report(st, self.own, "an element is passed over without being examined".into());
                        }
                        if self.cut(&ev.subj, cx) {
                            cx.report(st, self.own, "only a part of the sequence is searched".into());
                        }
                        st.g.insert(key, Val::Lin(if back { want } else { n.addk(1) }));
                    } else {
                        if self.cut(&ev.subj, cx) {
                            cx.report(st, self.own, "only a part of the sequence is searched".into());
                        }
                        st.g.insert("end", Val::agg(1, vec![]));
                        st.g.insert("seq", ev.subj.clone());
                    }
                }
            }
            Some(Each::Clear(_)) => self.clear_event(cx, st, ev)?,
            _ => {}
        }
        if !self.log {
            return Ok(());
        }
        if ev.k == EvK::ItNext && matches!(self.each, Some(Each::Any(_) | Each::Filled { .. } | Each::Count { .. })) {
            return Ok(());
        }
        if matches!(ev.k, EvK::Load | EvK::AddOv | EvK::SubOv | EvK::Conv | EvK::Assert | EvK::MinLen | EvK::Room) {
            return Ok(());
        }
        let e = Val::agg(
            ev.k as u32,
            vec![
                ev.subj.clone(),
                Val::agg(0, ev.args.clone()),
                Val::agg(
                    match ev.ok {
                        Some(true) => 1,
                        Some(false) => 2,
                        None => 0,
                    },
                    vec![],
                ),
                ev.res.clone(),
                ev.at.clone().map(Val::Lin).unwrap_or(Val::Undef),
                ev.ctx.map(|s| Val::Sym(s, cx.tcx.types.unit)).unwrap_or(Val::Undef),
                Val::Str(ev.name.as_str().into()),
                ev.ctx.and_then(|k| st.off.get(&k).cloned()).map(Val::Lin).unwrap_or(Val::Undef),
            ],
        );
        let mut v = match st.g.get("log") {
            Some(Val::Agg(_, f)) => (**f).clone(),
            _ => vec![],
        };
        if v.len() > 40 {
            return Err(Stop::Incomplete("too many calls".into()));
        }
        v.push(e);
        st.g.insert("log", Val::agg(0, v));
        Ok(())
    }
    fn head(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) {
        self.element_done(cx, st);
        self.empty_row(cx, st);
        self.slots(cx, st);
    }
    fn exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()> {
        let mut o = O { cx, st, ret: ret.clone(), m: self };
        (self.run)(&mut o)
    }
}

impl<'tcx> Oracle<'tcx> {
    fn cut(&self, v: &Val<'tcx>, cx: &Cx<'tcx>) -> bool {
        let s = match v {
            Val::Sym(s, _) => *s,
            Val::Ref(p) => match p.root {
                Root::Ext(s) => s,
                _ => return false,
            },
            _ => return false,
        };
        match cx.tm.kind(s) {
            SymKind::App(h, a) => &*h == "sub" || a.iter().any(|x| self.cut(x, cx)),
            _ => false,
        }
    }
    /// Emptying rows: `rows` counts complete rows from the first, `row`/`col` follow the row in work.
    fn clear_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let num = |st: &State<'tcx>, k: &str| st.g.get(k).and_then(|v| v.lin().cloned());
        let whole = |cx: &Cx<'tcx>, st: &mut State<'tcx>, i: Lin| {
            let n = num(st, "rows").unwrap_or_default();
            if cx.eq(st, &i, &n) {
                st.g.insert("rows", Val::Lin(n.addk(1)));
            }
        };
        match ev.k {
            EvK::ArrSet => {
                cx.obligation("element");
                let Some(i) = cx.elem_index(&ev.subj, false) else {
                    // a whole group is replaced
                    if let ("set", Some(Val::Lin(i)), Some(v)) = (ev.name.as_str(), ev.args.first(), ev.args.get(1)) {
                        match (v, cx.all_none(v)) {
                            (Val::Coll(_, l), _) if !l.is_zero() => cx.report(st, self.own, "the group is not emptied".into()),
                            (_, Some(false)) => cx.report(st, self.own, "a slot is not emptied".into()),
                            (Val::Coll(..), _) | (_, Some(true)) => {}
                            _ => return Err(Stop::Incomplete("what the group is replaced by".into())),
                        }
                        st.g.insert("row", Val::Lin(i.clone()));
                        st.g.insert("full", Val::agg(1, vec![]));
                        whole(cx, st, i.clone());
                        return Ok(());
                    }
                    return Err(Stop::Incomplete("which group is emptied".into()));
                };
                match ev.name.as_str() {
                    "set" => {
                        if ev.args[1] != cx.none() {
                            cx.report(st, self.own, "a slot is not emptied".into());
                        }
                        let c = num(st, "col").unwrap_or_default();
                        if ev.args[0].lin().is_some_and(|x| cx.eq(st, x, &c)) {
                            st.g.insert("col", Val::Lin(c.addk(1)));
                        }
                        st.g.insert("row", Val::Lin(i));
                    }
                    "fill" => {
                        if ev.args[0] != cx.none() {
                            cx.report(st, self.own, "a slot is not emptied".into());
                        }
                        st.g.insert("row", Val::Lin(i.clone()));
                        st.g.insert("full", Val::agg(1, vec![]));
                        whole(cx, st, i);
                    }
                    "truncate" => cx.report(st, self.own, "the group is not emptied".into()),
                    "clear" => {
                        st.g.insert("row", Val::Lin(i.clone()));
                        st.g.insert("full", Val::agg(1, vec![]));
                        whole(cx, st, i);
                    }
                    _ => return Err(Stop::Incomplete("which slot is emptied".into())),
                }
            }
            EvK::ItNext if ev.ok == Some(false) => {
                // the end of a row: complete if all its slots were written
                if let Val::Ref(p) = &ev.subj {
                    if let Some(PE::Index(i, _)) = p.path.last() {
                        let c = num(st, "col").unwrap_or_default();
                        let l = cx.seq_len(st, p);
                        if cx.eq(st, &c, &l) {
                            whole(cx, st, i.clone());
                            st.g.insert("full", Val::agg(1, vec![]));
                            st.g.insert("row", Val::Lin(i.clone()));
                        }
                        st.g.insert("col", Val::Lin(Lin::k(0)));
                    }
                }
                st.g.insert("walked", Val::agg(1, vec![]));
            }
            _ => {}
        }
        Ok(())
    }
    /// Slots looked at: all before `scan` are known, `filled` of them hold something.
    fn slots(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) {
        let (seq, et, from, len, count) = match &self.each {
            Some(Each::Filled { seq, et, from, len }) => (seq, et, from, len, false),
            Some(Each::Count { seq, et, from, len }) => (seq, et, from, len, true),
            _ => return,
        };
        let num = |st: &State<'tcx>, k: &str| st.g.get(k).and_then(|v| v.lin().cloned());
        let mut scan = num(st, "scan").unwrap_or_else(|| from.clone());
        let mut n = num(st, "filled").unwrap_or_default();
        for _ in 0..3 {
            if !st.facts.ge(&cx.tm, &len.sub(&scan).addk(-1)) {
                break;
            }
            match cx.slot_filled(st, &seq.index(scan.clone(), *et)) {
                Some(false) => {}
                Some(true) if count => n = n.addk(1),
                _ => break,
            }
            scan = scan.addk(1);
        }
        st.g.insert("scan", Val::Lin(scan));
        st.g.insert("filled", Val::Lin(n));
    }
    /// a group that has no elements needs no emptying
    fn empty_row(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) {
        let Some(Each::Clear(Some((rows, t)))) = &self.each else { return };
        if t.is_array() {
            return;
        }
        let n = st.g.get("rows").and_then(|v| v.lin().cloned()).unwrap_or_default();
        let l = cx.seq_len(st, &rows.index(n.clone(), *t));
        if st.facts.entails(&cx.tm, &Atom::Eq(l)) {
            st.g.insert("rows", Val::Lin(n.addk(1)));
            st.g.insert("walked", Val::agg(1, vec![]));
        }
    }
    /// the loop goes on: the element looked at last must not have the property
    fn element_done(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) {
        let Some(Each::Any(f)) = &self.each else { return };
        if let Some(v) = st.g.get("cur").cloned() {
            if v == Val::Undef {
                return;
            }
            match f(cx, st, &v) {
                Some(false) => {
                    cx.obligation("element");
                }
                Some(true) => cx.report(st, self.own, "the search goes on after a hit".into()),
                None => {
                    // not looked at yet, or not at all
                    cx.report(st, self.own, "an element is passed over without being examined".into());
                }
            }
            st.g.insert("cur", Val::Undef);
        }
    }
}

impl<'tcx> Cx<'tcx> {
    /// does the slot at `p` hold something, as far as the path has found out?
    pub fn slot_filled(&self, st: &mut State<'tcx>, p: &Ptr<'tcx>) -> Option<bool> {
        let v = match self.load(st, p) {
            Val::Agg(v, _) => return Some(v == 1),
            v => v,
        };
        let d = Lin::s(self.tm.app("discr", vec![v], true));
        if st.facts.entails(&self.tm, &Atom::Eq(d.addk(-1))) || st.facts.entails(&self.tm, &Atom::Ne(d.clone())) {
            Some(true)
        } else if st.facts.entails(&self.tm, &Atom::Eq(d.clone())) || st.facts.entails(&self.tm, &Atom::Ne(d.addk(-1))) {
            Some(false)
        } else {
            None
        }
    }
}

pub struct Fun<'tcx> {
    pub did: DefId,
    pub tr: String,
    pub item: String,
    pub me: Option<Ty<'tcx>>,
    pub adt: String,
    pub in_trait: bool,
    /// generic arguments of the implemented trait after `Self`
    pub targs: Vec<Ty<'tcx>>,
}

pub fn describe<'tcx>(cx: &Cx<'tcx>, did: DefId, imp: Option<DefId>) -> Fun<'tcx> {
    let tcx = cx.tcx;
    let item = tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default();
    let mut tr = String::new();
    let mut in_trait = false;
    let mut targs = vec![];
    if let Some(p) = imp.or(tcx.opt_parent(did)) {
        match tcx.def_kind(p) {
            DefKind::Trait => {
                tr = tcx.item_name(p).to_string();
                in_trait = true;
            }
            DefKind::Impl { of_trait: true } => {
                let r = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                tr = tcx.item_name(r.def_id).to_string();
                targs = r.args.types().skip(1).map(|t| cx.subst_ty(t)).collect();
            }
            _ => {}
        }
    }
    let me = cx.self_ty;
    let adt = me.map(|t| cx.adt_name(cx.peel(t))).unwrap_or_default();
    Fun { did, tr, item, me, adt, in_trait, targs }
}

fn never(_: &str) -> bool {
    false
}

pub struct Rule<'tcx> {
    pub own: &'static str,
    /// further properties that a wrong outcome breaks
    pub echo: Vec<&'static str>,
    pub label: String,
    pub log: bool,
    pub may_panic: fn(&str) -> bool,
    pub each: Option<Each<'tcx>>,
    pub run: Run<'tcx>,
    /// facts assumed at entry
    pub pre: Vec<Atom>,
    /// the counter of the iterator does not exceed the length of its sequence
    pub in_range: bool,
    pub names: Vec<String>,
    /// other properties the rule reports on
    pub also: Vec<&'static str>,
}

impl<'tcx> Rule<'tcx> {
    pub fn new(own: &'static str, label: &str, run: impl Fn(&mut O<'_, 'tcx>) -> R<()> + 'tcx) -> Self {
        Rule { own, label: label.into(), log: true, may_panic: never, each: None, run: Box::new(run), pre: vec![], in_range: false, names: vec![], also: vec![], echo: vec![] }
    }
}

pub fn install<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, did: DefId, imp: Option<DefId>) -> Result<Installed, String> {
    let f = describe(cx, did, imp);
    let args: Vec<Val<'tcx>> =
        (1..=cx.root_args.len() as u32).map(|i| st.mem.get(&Root::Loc(0, i)).cloned().unwrap_or(Val::Undef)).collect();
    let me = args.first().map(|a| cx.peel_val(st, a)).unwrap_or(Val::Undef);
    let Some(r) = crate::rules::rule(cx, st, &f, &args, &me) else { return Err("no rule".into()) };
    for a in &r.pre {
        st.facts.add(a, &cx.tm);
    }
    if r.in_range {
        let t = cx.peel(cx.root_args[0]);
        let mut c = None;
        let mut l = None;
        for (i, ft) in cx.variant_fields(t, 0).into_iter().enumerate() {
            let v = cx.project(&me, &PE::Field(0, i as u32, ft));
            if ft.is_usize() {
                c = Some(cx.to_lin(&v));
            } else if let Val::Ref(p) = v {
                l = Some(cx.seq_len(st, &p));
            }
        }
        if let (Some(c), Some(l)) = (c, l) {
            st.facts.add(&Atom::Ge(l.sub(&c)), &cx.tm);
        }
    }
    let own = r.own;
    let mut props = if own == "C21" || own == "C29" { vec![own] } else { vec![own, "C21"] };
    props.extend(r.also.iter().chain(&r.echo).copied());
    props.dedup();
    let o = Oracle {
        own,
        echo: r.echo,
        label: r.label.clone(),
        log: r.log,
        args,
        tys: cx.root_args.clone(),
        me,
        run: r.run,
        may_panic: r.may_panic,
        each: r.each,
        names: r.names,
    };
    *cx.mon.borrow_mut() = Some(Rc::new(o));
    let _ = ascii_class;
    Ok(Installed { rule: format!("oracle {} {}", own, r.label), own, props })
}
