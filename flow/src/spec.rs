//! The specification side: one monitor per kind of parser, driven by the events of the abstract
//! interpreter. A monitor never looks at source text; it sees which sub-parsers were attempted,
//! where, with which outcome, and the value and position at every exit.
use crate::interp::*;
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Regex,
    Ctor,
    Mat,
    PolicyMat,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    /// sub-pattern through the context (skip policy applies)
    Mat,
    /// sub-pattern without the skip policy
    Parse,
    Cons,
    Fun,
    Mapper,
}

#[derive(Clone, Debug)]
pub enum Who<'tcx> {
    Ty(Ty<'tcx>),
    /// the value produced by the previous call of a user function
    Made(Ty<'tcx>),
    Arg(u32),
    /// anything reached through argument 1
    Inner,
}

#[derive(Clone, Debug)]
pub struct Part<'tcx> {
    pub who: Who<'tcx>,
    pub how: How,
    pub nm: &'static str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    /// value of part i
    Part(usize),
    /// tuple of the values of two parts
    Pair(usize, usize),
    /// span from the entry to the end of the last part
    Whole,
    /// span of part i
    SpanOf(usize),
}

#[derive(Clone, Debug)]
pub struct LoopSpec<'tcx> {
    pub pat: Ty<'tcx>,
    pub sep: Option<Ty<'tcx>>,
    pub lo: Bound2,
    pub hi: Bound2,
    /// the flag allowing the last separator to be missing
    pub skip: Option<Sym>,
    pub err: &'static str,
    pub out: LoopOut,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LoopOut {
    Coll,
    Array,
    Span,
}
#[derive(Clone, Debug)]
pub enum Bound2 {
    None,
    Val(Lin),
    /// `Bound<usize>` value; `true` for the lower end
    Range(Val2, bool),
}
pub type Val2 = (Sym, u32);

#[derive(Clone, Debug)]
pub enum Proto<'tcx> {
    /// only the rules that hold for every matcher
    Generic,
    Seq { parts: Vec<Part<'tcx>>, out: Out },
    /// ordered choice between fixed alternatives
    Choice { alts: Vec<Part<'tcx>>, longest: bool },
    /// choice between the elements of a list
    Elems { elem: Ty<'tcx>, pair: bool, flag: Option<Sym>, err: &'static str, how: How },
    Loop(LoopSpec<'tcx>),
    Opt { part: Part<'tcx> },
    IfThen { first: Part<'tcx>, test: Part<'tcx>, then: Part<'tcx> },
    Branch { test: Ty<'tcx>, yes: Part<'tcx>, no: Part<'tcx> },
    Leaf { who: Who<'tcx> },
    Forward { how: How, lock: Lock },
    Assert { pat: Ty<'tcx>, flag: Sym },
    AnchorStart,
    AnchorEnd,
    Consume,
    ConsumeAll,
    Empty,
    Fail,
    Literal,
    Neu(NeuSpec<'tcx>),
    Unsupported,
    PolicyMat,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lock {
    None,
    Option,
    Mutex,
    RefCell,
    Once,
    Cell,
}
#[derive(Clone, Debug)]
pub struct NeuSpec<'tcx> {
    /// the unit used for the i-th item (the last one repeats)
    pub units: Vec<Ty<'tcx>>,
    pub cond: Ty<'tcx>,
    pub lo: Bound2,
    pub hi: Bound2,
    /// failing to meet the lower bound is reported with this code
    pub err: Option<&'static str>,
}

pub struct Spec<'tcx> {
    pub proto: Proto<'tcx>,
    pub side: Side,
    pub ctx: Option<(Val<'tcx>, Ty<'tcx>)>,
    pub key: Option<Sym>,
    pub me: Option<Val<'tcx>>,
    pub handler: Option<Val<'tcx>>,
    pub err_ty: Option<Ty<'tcx>>,
    /// property that owns the protocol
    pub own: &'static str,
    /// the type is part of what recursive patterns are made of
    pub recursive: bool,
    /// only the verdict is returned
    pub verdict: bool,
}

impl<'tcx> Spec<'tcx> {
    fn rep(&self, cx: &Cx<'tcx>, st: &State<'tcx>, props: &[&str], what: impl Into<String>) {
        let what = what.into();
        if self.verdict && ["span", "value", "result is not", "the error"].iter().any(|w| what.contains(w)) {
            return;
        }
        for p in props {
            cx.report(st, p, what.clone());
        }
    }
    fn phase(&self, st: &State<'tcx>) -> u32 {
        st.g.get("ph").and_then(|v| v.variant()).unwrap_or(0)
    }
    fn set_phase(&self, st: &mut State<'tcx>, n: u32) {
        st.g.insert("ph", Val::agg(n, vec![]));
    }
    fn lin(&self, st: &State<'tcx>, k: &'static str) -> Lin {
        st.g.get(k).and_then(|v| v.lin().cloned()).unwrap_or_default()
    }
    fn set_lin(&self, st: &mut State<'tcx>, k: &'static str, l: Lin) {
        st.g.insert(k, Val::Lin(l));
    }
    fn off(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>) -> R<Lin> {
        let (v, t) = self.ctx.clone().unwrap();
        cx.ctx_off(st, &v, t)
    }
    fn len(&self, cx: &Cx<'tcx>, st: &State<'tcx>) -> R<Lin> {
        let (v, t) = self.ctx.clone().unwrap();
        cx.ctx_len(st, &v, t)
    }
    fn eq(&self, cx: &Cx<'tcx>, st: &State<'tcx>, a: &Lin, b: &Lin) -> bool {
        st.facts.entails(&cx.tm, &Atom::Eq(a.sub(b)))
    }
    fn same(&self, cx: &Cx<'tcx>, st: &State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> bool {
        cx.same(st, a, b)
    }

    fn how(ev: &Ev<'tcx>) -> Option<How> {
        Some(match ev.k {
            EvK::Mat => How::Mat,
            EvK::Parse => How::Parse,
            EvK::Cons => How::Cons,
            EvK::CallFn => How::Fun,
            EvK::MapCall => How::Mapper,
            _ => return None,
        })
    }
    /// does the event's subject play the role `who`?
    fn is_who(&self, cx: &Cx<'tcx>, st: &State<'tcx>, ev: &Ev<'tcx>, who: &Who<'tcx>) -> bool {
        match who {
            Who::Ty(t) => {
                let rooted = match &self.me {
                    Some(me) => cx.mentions(&ev.subj, me),
                    None => true,
                };
                ev.subj_ty == Some(*t) && (rooted || matches!(ev.subj, Val::Agg(..)))
            }
            Who::Made(_) => st.g.get("made").is_some_and(|v| self.same(cx, st, v, &ev.subj)),
            Who::Arg(i) => {
                let a = cx.tm.intern(SymKind::Arg(*i), false);
                let root = Val::Sym(a, cx.tcx.types.unit);
                let _ = &root;
                cx.mentions_sym(&ev.subj, a)
            }
            Who::Inner => match &self.me {
                Some(me) => cx.mentions(&ev.subj, me),
                None => false,
            },
        }
    }
    /// common checks of an attempt against the expected part; true when it is the expected one
    fn expect(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>, p: &Part<'tcx>, at: &Lin) -> bool {
        let Some(h) = Self::how(ev) else { return false };
        let own = self.own;
        if !self.is_who(cx, st, ev, &p.who) {
            self.rep(cx, st, &[own, "C29"], format!("expected to run {}, but something else is run ({})", p.nm, ev.name));
            return false;
        }
        if h != p.how {
            let t: Vec<&str> = if matches!((h, p.how), (How::Mat, How::Parse) | (How::Parse, How::Mat)) {
                vec!["C14"]
            } else {
                vec![own]
            };
            self.rep(cx, st, &t, format!("{} is run as {:?}, expected {:?}", p.nm, h, p.how));
        }
        if ev.at.is_some() {
            if let (Some(a), Some(b)) = (ev.ctx, self.key)
                && a != b
                && !cx.sym_mentions(a, b)
                && !cx.sym_mentions(b, a)
            {
                self.rep(cx, st, &[own], format!("{} is run on a different context", p.nm));
            }
            if !self.eq(cx, st, ev.at.as_ref().unwrap(), at) {
                self.rep(cx, st, &[own], format!("{} is attempted at a wrong position", p.nm));
            }
        }
        if h == How::Cons {
            if let (Some(want), Some(got)) = (&self.handler, ev.args.first()) {
                if !self.same(cx, st, want, got) {
                    self.rep(cx, st, &["C12", own], format!("{} is constructed with a different handler", p.nm));
                }
            }
        }
        true
    }

    fn start_regs(&self, st: &mut State<'tcx>) {
        let o = self.lin(st, "off0");
        self.set_lin(st, "acc", o);
        self.set_lin(st, "cnt", Lin::k(0));
        self.set_phase(st, 0);
        match &self.proto {
            Proto::Loop(_) => {
                self.set_lin(st, "npush", Lin::k(0));
                let o = self.lin(st, "off0");
                self.set_lin(st, "pend", o);
            }
            Proto::Elems { .. } => {}
            _ => {}
        }
    }

    pub fn is_attempt(ev: &Ev<'tcx>) -> bool {
        matches!(ev.k, EvK::Mat | EvK::Parse | EvK::Cons | EvK::CallFn | EvK::MapCall | EvK::Invoke)
    }

    // ---- events ---------------------------------------------------------------------------
    fn seq_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>, parts: &[Part<'tcx>]) -> R<()> {
        let own = self.own;
        let n = self.phase(st) as usize;
        if n >= 100 {
            self.rep(cx, st, &[own], format!("{} is run after a part has failed", ev.name));
            return Ok(());
        }
        if n >= parts.len() {
            self.rep(cx, st, &[own], format!("{} is run after the last part", ev.name));
            return Ok(());
        }
        let acc = self.lin(st, "acc");
        let p = &parts[n];
        cx.obligation("part");
        self.expect(cx, st, ev, p, &acc);
        if p.how == How::Fun || p.how == How::Mapper {
            // receives the value of the previous part
            let prev = st.g.get(VK[n - 1]).cloned().unwrap_or(Val::Undef);
            if !ev.args.iter().any(|a| self.same(cx, st, a, &prev)) {
                self.rep(cx, st, &[own, "C13"], format!("{} does not receive the value of the previous part", p.nm));
            }
        }
        if ev.ok == Some(true) {
            let o = self.off(cx, st)?;
            // a mapper has no context to move
            if p.how == How::Mapper && !self.eq(cx, st, &o, &acc) {
                self.rep(cx, st, &[own, "C03"], "the position is moved away from the end of the part before the mapper runs");
            }
            self.set_lin(st, "acc", o);
            st.g.insert(VK[n], ev.res.clone());
            if p.how == How::Fun {
                let r = ev.res.fld(0).cloned().unwrap_or(ev.res.clone());
                st.g.insert(VK[n], r.clone());
                st.g.insert("made", r);
            }
            self.set_phase(st, n as u32 + 1);
        } else if ev.ok == Some(false) {
            let r = if p.how == How::Fun { ev.res.fld(0).cloned().unwrap_or(ev.res.clone()) } else { ev.res.clone() };
            // a mapper that rejects leaves the position alone
            if p.how == How::Mapper {
                st.g.insert("user_rejected", Val::agg(1, vec![]));
            } else if p.how == How::Cons && parts.iter().any(|q| q.how == How::Mapper) {
                // so does a mapped parser whose handler rejects
                let o = self.off(cx, st)?;
                self.set_lin(st, "left", o);
            }
            st.g.insert("err", r);
            self.set_phase(st, 100 + n as u32);
        }
        Ok(())
    }
    fn choice_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>, alts: &[Part<'tcx>], longest: bool) -> R<()> {
        let own = self.own;
        // phase: number of alternatives tried + 10 * (winner index + 1)
        let phv = self.phase(st);
        let (n, win) = ((phv % 10) as usize, phv / 10);
        if win > 0 && !longest {
            self.rep(cx, st, &[own], format!("{} is tried after an alternative has matched", ev.name));
            return Ok(());
        }
        if n >= alts.len() {
            self.rep(cx, st, &[own], format!("{} is tried after the last alternative", ev.name));
            return Ok(());
        }
        let off0 = self.lin(st, "off0");
        cx.obligation("alternative");
        self.expect(cx, st, ev, &alts[n], &off0);
        if ev.ok == Some(true) {
            let o = self.off(cx, st)?;
            let better = if win == 0 {
                true
            } else {
                let best = self.lin(st, "acc");
                cx.decide(st, &Atom::Ge(o.sub(&best).addk(-1)))?
            };
            if better {
                self.set_lin(st, "acc", o);
                st.g.insert("val", ev.res.clone());
                self.set_phase(st, n as u32 + 1 + 10 * (n as u32 + 1));
            } else {
                self.set_phase(st, n as u32 + 1 + 10 * win);
            }
        } else {
            st.g.insert("err", ev.res.clone());
            self.set_phase(st, n as u32 + 1 + 10 * win);
        }
        Ok(())
    }
    fn elems_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let Proto::Elems { elem, pair, flag, how, .. } = &self.proto else { unreachable!() };
        let longest = match flag {
            Some(f) => cx.decide(st, &Atom::B(*f))?,
            None => false,
        };
        let owns: &[&str] = if longest { &["C05"] } else { &["C06"] };
        // phase: 0 nothing matched yet, 1 something matched
        let won = self.phase(st) == 1;
        if won && !longest {
            self.rep(cx, st, owns, "an element is tried after an earlier one has matched");
            return Ok(());
        }
        let cnt = self.lin(st, "cnt");
        let off0 = self.lin(st, "off0");
        cx.obligation("element");
        if ev.subj_ty != Some(*elem) || Self::how(ev) != Some(*how) {
            self.rep(cx, st, owns, format!("{} is run instead of an element", ev.name));
            return Ok(());
        }
        match cx.elem_index(&ev.subj, *pair) {
            Some(ix) if self.eq(cx, st, &ix, &cnt) => {}
            Some(_) => self.rep(cx, st, owns, "elements are not tried in order from the first"),
            None => self.rep(cx, st, owns, "the pattern tried is not an element of the list"),
        }
        if !self.eq(cx, st, ev.at.as_ref().unwrap(), &off0) {
            self.rep(cx, st, owns, "an element is tried away from the entry position");
        }
        if *how == How::Cons {
            if let (Some(want), Some(got)) = (&self.handler, ev.args.first()) {
                if !self.same(cx, st, want, got) {
                    self.rep(cx, st, &["C12"], "an element is constructed with a different handler");
                }
            }
        }
        if ev.ok == Some(true) {
            let o = self.off(cx, st)?;
            let better = if !won {
                true
            } else {
                let best = self.lin(st, "acc");
                cx.decide(st, &Atom::Ge(o.sub(&best).addk(-1)))?
            };
            if better {
                self.set_lin(st, "acc", o);
                st.g.insert("val", ev.res.clone());
                self.set_lin(st, "ix", cnt.clone());
                self.set_phase(st, 1);
            }
        }
        self.set_lin(st, "cnt", cnt.addk(1));
        Ok(())
    }

    /// is `cnt` below the upper limit of the loop? (`Some(limit)` when there is one)
    fn upper(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, b: &Bound2) -> R<Option<Lin>> {
        Ok(match b {
            Bound2::None => None,
            Bound2::Val(l) => Some(l.clone()),
            Bound2::Range((s, _), _) => match self.bound_case(cx, st, *s)? {
                0 => Some(self.bound_val(cx, *s, 0)),
                1 => {
                    let m = self.bound_val(cx, *s, 1);
                    // exclusive: one less, but not below zero
                    Some(cx.ssub(st, &m, &Lin::k(1)))
                }
                _ => None,
            },
        })
    }
    /// does `cnt` respect the upper end of the range?
    fn below(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, b: &Bound2, cnt: &Lin) -> R<bool> {
        let m = match b {
            Bound2::None => return Ok(true),
            Bound2::Val(l) => l.clone(),
            Bound2::Range((s, _), _) => match self.bound_case(cx, st, *s)? {
                0 => self.bound_val(cx, *s, 0),
                1 => self.bound_val(cx, *s, 1).addk(-1),
                _ => return Ok(true),
            },
        };
        cx.decide(st, &Atom::Ge(m.sub(cnt)))
    }
    fn lower(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, b: &Bound2) -> R<Lin> {
        Ok(match b {
            Bound2::None => Lin::k(0),
            Bound2::Val(l) => l.clone(),
            Bound2::Range((s, _), _) => match self.bound_case(cx, st, *s)? {
                0 => self.bound_val(cx, *s, 0),
                1 => self.bound_val(cx, *s, 1).addk(1),
                _ => Lin::k(0),
            },
        })
    }
    fn bound_case(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, s: Sym) -> R<u32> {
        let bt = cx.tcx.types.unit;
        let _ = bt;
        let d = Lin::s(cx.tm.app("discr", vec![cx.sym_val(s)], true));
        for k in 0..2 {
            if cx.decide(st, &Atom::Eq(d.addk(-k)))? {
                return Ok(k as u32);
            }
        }
        Ok(2)
    }
    fn bound_val(&self, cx: &Cx<'tcx>, s: Sym, v: u32) -> Lin {
        let Val::Sym(_, t) = cx.sym_val(s) else { unreachable!() };
        let x = cx.proj_sym(s, t, v, 0, cx.tcx.types.usize);
        cx.to_lin(&x)
    }

    fn loop_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>, l: &LoopSpec<'tcx>) -> R<()> {
        let own = self.own;
        let phv = self.phase(st);
        let acc = self.lin(st, "acc");
        let cnt = self.lin(st, "cnt");
        let ctor = self.side == Side::Ctor;
        match phv {
            0 => {
                let part = Part { who: Who::Ty(l.pat), how: if ctor { How::Cons } else { How::Mat }, nm: "the repeated pattern" };
                cx.obligation("iteration");
                if !self.expect(cx, st, ev, &part, &acc) {
                    return Ok(());
                }
                if ctor && st.g.get("val").is_some_and(|v| v.variant() == Some(1)) {
                    self.rep(cx, st, &[own, "C13"], "a constructed element is not stored before the next one");
                }
                if let Some(m) = self.upper(cx, st, &l.hi)? {
                    if !st.facts.entails(&cx.tm, &Atom::Ge(m.sub(&cnt).addk(-1))) {
                        self.rep(cx, st, &[own], "the pattern is attempted although the maximum count is reached");
                    }
                }
                if ev.ok == Some(true) {
                    let o = self.off(cx, st)?;
                    st.g.insert("val", Val::agg(1, vec![ev.res.clone()]));
                    if l.sep.is_some() {
                        self.set_lin(st, "pend", o);
                        self.set_phase(st, 1);
                    } else {
                        self.set_lin(st, "acc", o);
                        self.set_lin(st, "cnt", cnt.addk(1));
                    }
                } else {
                    self.set_phase(st, 2);
                }
            }
            1 => {
                let pend = self.lin(st, "pend");
                let part = Part { who: Who::Ty(l.sep.unwrap()), how: How::Mat, nm: "the separator" };
                cx.obligation("separator");
                if !self.expect(cx, st, ev, &part, &pend) {
                    return Ok(());
                }
                let counted;
                if ev.ok == Some(true) {
                    let o = self.off(cx, st)?;
                    self.set_lin(st, "acc", o);
                    counted = true;
                    self.set_phase(st, 0);
                } else {
                    counted = match l.skip {
                        Some(s) => cx.decide(st, &Atom::B(s))?,
                        None => true,
                    };
                    if counted {
                        self.set_lin(st, "acc", pend);
                    }
                    self.set_phase(st, 2);
                }
                if counted {
                    self.set_lin(st, "cnt", cnt.addk(1));
                } else {
                    st.g.insert("val", Val::agg(0, vec![]));
                }
                let a = self.lin(st, "acc");
                self.set_lin(st, "pend", a);
            }
            _ => {
                self.rep(cx, st, &[own], format!("{} is attempted after the repetition has ended", ev.name));
            }
        }
        Ok(())
    }
    fn store_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let Proto::Loop(l) = &self.proto else { return Ok(()) };
        if self.side != Side::Ctor || l.out == LoopOut::Span {
            return Ok(());
        }
        let own = self.own;
        cx.obligation("store");
        if ev.k == EvK::ArrSet && ev.args.len() < 2 {
            // `fill` and `clear` before anything is stored prepare the collection
            let np = self.lin(st, "npush");
            if (ev.name == "fill" || ev.name == "clear" || ev.name == "truncate") && self.eq(cx, st, &np, &Lin::k(0)) {
                return Ok(());
            }
            // taking back what was stored before the separator was known
            if ev.name == "pop" {
                if let Some(Val::Agg(1, f)) = st.g.get("early").cloned() {
                    if let Some(v) = f.first() {
                        st.g.insert("val", Val::agg(1, vec![v.clone()]));
                        st.g.insert("early", Val::agg(0, vec![]));
                        self.set_lin(st, "npush", np.addk(-1));
                        return Ok(());
                    }
                }
            }
            self.rep(cx, st, &[own, "C13"], "elements already stored are removed or moved");
            return Ok(());
        }
        let v = if ev.k == EvK::Push {
            ev.args[0].clone()
        } else {
            // array slots hold `Some(value)`
            match ev.args[1].fld(0) {
                Some(x) if ev.args[1].variant() == Some(1) => x.clone(),
                _ => {
                    self.rep(cx, st, &[own, "C13"], "a slot is overwritten with no element");
                    return Ok(());
                }
            }
        };
        let np = self.lin(st, "npush");
        match st.g.get("val").cloned() {
            Some(Val::Agg(1, f)) if self.same(cx, st, &f[0], &v) => {}
            _ => self.rep(cx, st, &[own, "C13"], "the stored element is not the one just constructed"),
        }
        if self.phase(st) == 1 {
            // stored before the separator is known: only right if it cannot be dropped any more
            st.g.insert("early", Val::agg(1, vec![v.clone()]));
        }
        if ev.k == EvK::ArrSet && !self.eq(cx, st, &cx.to_lin(&ev.args[0]), &np) {
            self.rep(cx, st, &[own, "C13"], "an element is stored at a wrong index");
        }
        st.g.insert("val", Val::agg(0, vec![]));
        self.set_lin(st, "npush", np.addk(1));
        Ok(())
    }

    // ---- exits ----------------------------------------------------------------------------
    fn err_is(&self, cx: &Cx<'tcx>, v: &Val<'tcx>, name: &str) -> bool {
        let Some(ty::Adt(d, _)) = self.err_ty.map(|t| t.kind().clone()) else { return false };
        match v.variant() {
            Some(i) => d.variants().iter_enumerated().any(|(x, y)| x.as_u32() == i && y.name.as_str() == name),
            None => {
                let _ = cx;
                false
            }
        }
    }
    fn err_eq(&self, cx: &Cx<'tcx>, st: &State<'tcx>, got: &Val<'tcx>, want: &Val<'tcx>) -> bool {
        if self.same(cx, st, got, want) {
            return true;
        }
        // converted through `Into`
        if let Val::Sym(s, _) = got {
            if let SymKind::App(h, a) = cx.tm.kind(*s) {
                if h.ends_with("convert::Into::into") || h.ends_with("convert::From::from") {
                    return a.len() == 1 && self.same(cx, st, &a[0], want);
                }
            }
        }
        false
    }
    fn span_parts(&self, cx: &Cx<'tcx>, sp: &Val<'tcx>) -> (Lin, Lin) {
        let (bi, li) = cx.span_ix();
        let b = cx.to_lin(&cx.project(sp, &PE::Field(0, bi as u32, cx.tcx.types.usize)));
        let l = cx.to_lin(&cx.project(sp, &PE::Field(0, li as u32, cx.tcx.types.usize)));
        (b, l)
    }
    fn span_is(&self, cx: &Cx<'tcx>, st: &State<'tcx>, sp: &Val<'tcx>, beg: &Lin, end: &Lin) -> bool {
        let (b, l) = self.span_parts(cx, sp);
        self.eq(cx, st, &b, beg) && self.eq(cx, st, &b.add(&l), end)
    }

    /// the span ends at `end` and begins between the entry position and the first matched part
    fn covers(&self, cx: &Cx<'tcx>, st: &State<'tcx>, sp: &Val<'tcx>, off0: &Lin, end: &Lin) -> bool {
        let (b, l) = self.span_parts(cx, sp);
        if !self.eq(cx, st, &b.add(&l), end) {
            return false;
        }
        match st.g.get("v0") {
            Some(v0) => {
                let (fb, _) = self.span_parts(cx, v0);
                self.eq(cx, st, &b, off0) || self.eq(cx, st, &b, &fb)
            }
            None => self.eq(cx, st, &b, off0),
        }
    }

    fn exit_inner(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()> {
        let own = self.own;
        if self.verdict {
            let c = cx.to_cond(&cx.peel_val(st, ret));
            let ok = cx.decide_c(st, &c)?;
            if let Some(v) = st.g.get("itself").and_then(|v| v.variant()) {
                cx.obligation("verdict");
                if (v == 1) != ok {
                    self.rep(cx, st, &[own, "C31"], "the verdict is not the one of the match");
                }
                return Ok(());
            }
            if self.ctx.is_none() {
                return self.exit_proto(cx, st, ok, &Val::Undef, &Lin::k(0), &Lin::k(0));
            }
            let (off, off0) = (self.off(cx, st)?, self.lin(st, "off0"));
            if !ok {
                cx.obligation("restore");
                if !self.eq(cx, st, &kept(cx, &off), &off0) {
                    self.rep(cx, st, &["C01"], "a failing exit leaves the position changed");
                }
            }
            let span = Val::agg(0, vec![Val::Lin(off0.clone()), Val::Lin(off.sub(&off0))]);
            return self.exit_proto(cx, st, ok, &span, &off, &off0);
        }
        let Some((ok_t, _)) = cx.is_result(cx.root_ret) else { return Ok(()) };
        let Some(v) = ret.variant() else {
            self.rep(cx, st, &[own], format!("undetermined result {}", cx.tm.show(ret)));
            return Ok(());
        };
        let ok = v == 0;
        let val = ret.fld(0).cloned().unwrap_or(Val::Undef);
        if self.ctx.is_none() {
            return self.exit_proto(cx, st, ok, &val, &Lin::k(0), &Lin::k(0));
        }
        let off = self.off(cx, st)?;
        let off0 = self.lin(st, "off0");
        let len = self.len(cx, st)?;
        let spanlike = cx.is_span(ok_t) && self.side != Side::Ctor;
        if !ok {
            let exempt = st.g.contains_key("user_rejected")
                || (self.side == Side::Ctor && matches!(self.proto, Proto::Forward { .. }));
            if !exempt {
                cx.obligation("restore");
                let p = if self.side == Side::Ctor { "C02" } else { "C01" };
                let left = st.g.get("left").and_then(|v| v.lin().cloned());
                if !self.eq(cx, st, &kept(cx, &off), &off0) && !left.is_some_and(|l| self.eq(cx, st, &off, &l)) {
                    self.rep(cx, st, &[p], "a failing exit leaves the position changed");
                }
            }
        } else if spanlike {
            cx.obligation("span");
            let (b, l) = self.span_parts(cx, &val);
            let end = b.add(&l);
            if self.side == Side::PolicyMat {
                if !st.facts.entails(&cx.tm, &Atom::Ge(off.sub(&end))) {
                    self.rep(cx, st, &["C03"], "the position is before the end of the reported span");
                }
            } else if !self.eq(cx, st, &end, &kept(cx, &off)) {
                self.rep(cx, st, &["C03"], "the reported span does not end at the position");
            }
            if !st.facts.entails(&cx.tm, &Atom::Ge(b.sub(&off0))) {
                self.rep(cx, st, &["C03"], "the reported span begins before the entry position");
            }
            if !st.facts.entails(&cx.tm, &Atom::Ge(len.sub(&off))) {
                self.rep(cx, st, &["C03"], "the position may exceed the input length");
            }
        }
        self.exit_proto(cx, st, ok, &val, &off, &off0)
    }

    fn exit_proto(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ok: bool, val: &Val<'tcx>, off: &Lin, off0: &Lin) -> R<()> {
        let own = self.own;
        let phv = self.phase(st);
        let acc = self.lin(st, "acc");
        let cnt = self.lin(st, "cnt");
        match &self.proto {
            Proto::Generic | Proto::Unsupported | Proto::PolicyMat => {}
            Proto::Seq { parts, out } => {
                cx.obligation("sequence-exit");
                if ok {
                    if phv as usize != parts.len() {
                        self.rep(cx, st, &[own], "succeeds although not every part has matched");
                        return Ok(());
                    }
                    if !self.eq(cx, st, off, &acc) && self.side != Side::PolicyMat {
                        self.rep(cx, st, &[own, "C03"], "success does not leave the position at the end of the last part");
                    }
                    let g = |st: &State<'tcx>, i: usize| st.g.get(VK[i]).cloned().unwrap_or(Val::Undef);
                    match out {
                        Out::Part(i) => {
                            if !self.same(cx, st, val, &g(st, *i)) {
                                self.rep(cx, st, &["C13", own], format!("the result is not the value of {}", parts[*i].nm));
                            }
                        }
                        Out::Pair(i, j) => {
                            let w = Val::agg(0, vec![g(st, *i), g(st, *j)]);
                            if !self.same(cx, st, val, &w) {
                                self.rep(cx, st, &["C13", own], "the result is not the pair of the parts' values in order");
                            }
                        }
                        Out::Whole => {
                            if !self.covers(cx, st, val, off0, &acc) {
                                self.rep(cx, st, &[own, "C03"], "the span does not cover exactly the parts that matched");
                            }
                        }
                        Out::SpanOf(i) => {
                            if !self.same(cx, st, val, &g(st, *i)) {
                                self.rep(cx, st, &[own, "C03"], format!("the span is not the one of {}", parts[*i].nm));
                            }
                        }
                    }
                } else {
                    if phv < 100 {
                        self.rep(cx, st, &[own], "fails although no part has failed");
                        return Ok(());
                    }
                    let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                    if !self.err_eq(cx, st, val, &e) {
                        self.rep(cx, st, &["C15"], "the error is not the one of the failing part");
                    }
                }
            }
            Proto::Choice { alts, longest } => {
                cx.obligation("choice-exit");
                let (n, win) = ((phv % 10) as usize, phv / 10);
                if ok {
                    if win == 0 {
                        self.rep(cx, st, &[own], "succeeds although no alternative has matched");
                        return Ok(());
                    }
                    if *longest && n != alts.len() {
                        self.rep(cx, st, &[own], "not every alternative is compared");
                    }
                    let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                    if !self.same(cx, st, val, &w) {
                        self.rep(cx, st, &[own, "C13"], "the result is not the one of the winning alternative");
                    }
                    if !self.eq(cx, st, off, &acc) {
                        self.rep(cx, st, &[own, "C03"], "success does not leave the position at the end of the winning alternative");
                    }
                } else {
                    if win > 0 {
                        self.rep(cx, st, &[own], "fails although an alternative has matched");
                        return Ok(());
                    }
                    if n != alts.len() {
                        self.rep(cx, st, &[own], "fails before every alternative was tried");
                        return Ok(());
                    }
                    let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                    if !self.err_eq(cx, st, val, &e) {
                        self.rep(cx, st, &["C15"], "the error is not the one of the last alternative");
                    }
                }
            }
            Proto::Elems { pair, flag, err, .. } => {
                cx.obligation("choice-exit");
                let longest = match flag {
                    Some(f) => cx.decide(st, &Atom::B(*f))?,
                    None => false,
                };
                let owns: &[&str] = if longest { &["C05"] } else { &["C06"] };
                let n = cx.elem_count(st, self.me.as_ref().unwrap());
                let all = match &n {
                    Some(n) => self.eq(cx, st, &cnt, n),
                    None => false,
                };
                if ok {
                    if phv == 0 {
                        self.rep(cx, st, owns, "succeeds although no element has matched");
                        return Ok(());
                    }
                    if longest && !all {
                        self.rep(cx, st, owns, "not every element is compared");
                    }
                    let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                    let good = if *pair && self.side == Side::Ctor {
                        let ix = self.lin(st, "ix");
                        val.fld(0).is_some_and(|x| self.same(cx, st, x, &w))
                            && val.fld(1).is_some_and(|x| cx.elem_index_field(x).is_some_and(|i| self.eq(cx, st, &i, &ix)))
                    } else {
                        self.same(cx, st, val, &w)
                    };
                    if !good {
                        self.rep(cx, st, owns, "the result is not the one of the chosen element");
                        self.rep(cx, st, &["C13"], "the result is not the one of the chosen element");
                    }
                    if !self.eq(cx, st, off, &acc) {
                        self.rep(cx, st, owns, "success does not leave the position at the end of the chosen element");
                        self.rep(cx, st, &["C03"], "success does not leave the position at the end of the chosen element");
                    }
                } else {
                    if phv == 1 {
                        self.rep(cx, st, owns, "fails although an element has matched");
                        return Ok(());
                    }
                    if !all {
                        self.rep(cx, st, owns, "fails before every element was tried");
                        return Ok(());
                    }
                    if !self.err_is(cx, val, err) {
                        self.rep(cx, st, &["C15"], format!("the error is not {err}"));
                    }
                }
            }
            Proto::Loop(l) => {
                cx.obligation("repetition-exit");
                if phv == 1 {
                    self.rep(cx, st, &[own], "ends before the separator was tried");
                    return Ok(());
                }
                if phv == 0 {
                    match self.upper(cx, st, &l.hi)? {
                        Some(m) => {
                            if !st.facts.entails(&cx.tm, &Atom::Ge(cnt.sub(&m))) {
                                self.rep(cx, st, &[own], "stops although the pattern could match again");
                            }
                        }
                        None => self.rep(cx, st, &[own], "stops although the pattern could match again"),
                    }
                }
                let lo = self.lower(cx, st, &l.lo)?;
                let mut inr = cx.decide(st, &Atom::Ge(cnt.sub(&lo)))?;
                if inr {
                    inr = self.below(cx, st, &l.hi, &cnt)?;
                }
                if ok != inr {
                    self.rep(
                        cx,
                        st,
                        &[own],
                        if ok { "succeeds although the count is outside the requested range" } else { "fails although the count is inside the requested range" },
                    );
                    return Ok(());
                }
                if ok {
                    if !self.eq(cx, st, off, &acc) {
                        self.rep(cx, st, &[own, "C03"], "success does not leave the position at the end of the last accepted element");
                    }
                    if self.side == Side::Ctor {
                        let np = self.lin(st, "npush");
                        if !self.eq(cx, st, &np, &cnt) {
                            self.rep(cx, st, &[own, "C13"], "the number of stored elements differs from the number accepted");
                        }
                        match (l.out, val) {
                            (LoopOut::Coll, Val::Coll(_, n)) => {
                                if !self.eq(cx, st, n, &cnt) {
                                    self.rep(cx, st, &[own, "C13"], "the returned collection does not hold exactly the accepted elements");
                                }
                            }
                            (LoopOut::Array, Val::Arr(s, _)) => {
                                let fill_none = match cx.tm.kind(*s) {
                                    SymKind::App(h, a) => &*h == "arr" && a[0].variant() == Some(0),
                                    _ => false,
                                };
                                if !fill_none {
                                    self.rep(cx, st, &[own, "C13"], "unused slots of the returned array are not empty");
                                }
                            }
                            _ => self.rep(cx, st, &[own, "C13"], "the returned value is not the collection of accepted elements"),
                        }
                    } else if !self.span_is(cx, st, val, off0, &acc) {
                        self.rep(cx, st, &[own, "C03"], "the span does not cover the accepted elements from the entry position");
                    }
                } else if !self.err_is(cx, val, l.err) {
                    self.rep(cx, st, &["C15"], format!("the error is not {}", l.err));
                }
            }
            Proto::Opt { .. } => {
                cx.obligation("optional-exit");
                // phase 0: not tried, 1: matched, 2: failed
                if !ok {
                    self.rep(cx, st, &[own], "an optional pattern fails");
                    return Ok(());
                }
                if phv == 0 {
                    self.rep(cx, st, &[own], "the optional pattern is never tried");
                    return Ok(());
                }
                let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                let good = match (phv, self.side) {
                    (1, Side::Ctor) => self.same(cx, st, val, &Val::agg(1, vec![w])),
                    (1, _) => self.same(cx, st, val, &w),
                    (_, Side::Ctor) => val.variant() == Some(0) && val.fld(0).is_none(),
                    _ => self.span_is(cx, st, val, off0, off0),
                };
                if !good {
                    self.rep(cx, st, &[own, "C13"], "the result is not the optional pattern's outcome");
                }
                let want = if phv == 1 { acc } else { off0.clone() };
                if !self.eq(cx, st, off, &want) {
                    let p: &[&'static str] = if self.eq(cx, st, &kept(cx, off), &want) { &[own] } else { &[own, "C03"] };
                    self.rep(cx, st, p, "the position is wrong after an optional pattern");
                }
            }
            Proto::IfThen { .. } => {
                cx.obligation("conditional-exit");
                // 1 first ok, 2 test ok, 3 then ok, 12 test failed, 100/102 failure of first/then
                if ok {
                    let a = st.g.get("v0").cloned().unwrap_or(Val::Undef);
                    match phv {
                        3 | 12 => {
                            if !self.eq(cx, st, off, &acc) {
                                self.rep(cx, st, &[own, "C03"], "the position is not at the end of the last matched part");
                            }
                            if self.side == Side::Ctor {
                                let second = if phv == 3 {
                                    Val::agg(1, vec![st.g.get("v2").cloned().unwrap_or(Val::Undef)])
                                } else {
                                    Val::agg(0, vec![])
                                };
                                if !self.same(cx, st, val, &Val::agg(0, vec![a, second])) {
                                    self.rep(cx, st, &[own, "C13"], "the result does not pair the first value with the optional second one");
                                }
                            } else if !self.covers(cx, st, val, off0, &acc) {
                                self.rep(cx, st, &[own, "C03"], "the span does not cover exactly the parts that matched");
                            }
                        }
                        _ => self.rep(cx, st, &[own], "succeeds before the conditional is decided"),
                    }
                } else {
                    if phv < 100 {
                        self.rep(cx, st, &[own], "fails although neither the first nor the conditional part failed");
                        return Ok(());
                    }
                    let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                    if !self.err_eq(cx, st, val, &e) {
                        self.rep(cx, st, &["C15"], "the error is not the one of the failing part");
                    }
                }
            }
            Proto::Branch { .. } => {
                cx.obligation("branch-exit");
                // 0 start, 1 test true, 2 test false, 3 chosen side ok, 100 failed
                if ok {
                    if phv != 3 {
                        self.rep(cx, st, &[own], "succeeds before the chosen side has matched");
                        return Ok(());
                    }
                    let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                    if !self.same(cx, st, val, &w) {
                        self.rep(cx, st, &[own, "C13"], "the result is not the one of the chosen side");
                    }
                    if !self.eq(cx, st, off, &acc) {
                        self.rep(cx, st, &[own, "C03"], "the position is not at the end of the chosen side");
                    }
                } else {
                    if phv != 100 {
                        self.rep(cx, st, &[own], "fails although neither the test nor the chosen side failed");
                        return Ok(());
                    }
                    let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                    if !self.err_eq(cx, st, val, &e) {
                        self.rep(cx, st, &["C15"], "the error is not the one of the test or the chosen side");
                    }
                }
            }
            Proto::Leaf { .. } => {
                cx.obligation("leaf-exit");
                // 1 matched, 2 handler ok, 100 match failed, 101 handler failed
                match (ok, phv) {
                    (true, 2) => {
                        let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                        if !self.same(cx, st, val, &w) {
                            self.rep(cx, st, &["C12", "C13"], "the result is not the handler's value");
                        }
                        if !self.eq(cx, st, off, &acc) {
                            self.rep(cx, st, &["C12", "C03"], "the position is not at the end of the match");
                        }
                    }
                    (true, 1) => self.rep(cx, st, &["C12"], "succeeds without calling the handler"),
                    (true, _) => self.rep(cx, st, &["C12"], "succeeds although the match or the handler failed"),
                    (false, 100 | 101) => {
                        let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                        if !self.err_eq(cx, st, val, &e) {
                            self.rep(cx, st, &["C15"], "the error is not the one of the match or the handler");
                        }
                    }
                    (false, _) => self.rep(cx, st, &["C12"], "fails although neither the match nor the handler failed"),
                }
            }
            Proto::Forward { lock, .. } => {
                cx.obligation("forward-exit");
                // 0 not run, 1 ok, 100 failed
                match (ok, phv) {
                    (true, 1) => {
                        let w = st.g.get("val").cloned().unwrap_or(Val::Undef);
                        if !self.same(cx, st, val, &w) {
                            self.rep(cx, st, &[own], "the result differs from the wrapped parser's");
                        }
                        if self.ctx.is_some() && !self.eq(cx, st, off, &acc) {
                            self.rep(cx, st, &[own, "C03"], "the position differs from where the wrapped parser left it");
                        }
                    }
                    (false, 100) => {
                        let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
                        if !self.same(cx, st, val, &e) {
                            self.rep(cx, st, &[own, "C15"], "the error differs from the wrapped parser's");
                        }
                        if self.ctx.is_some() && !self.eq(cx, st, off, &acc) {
                            self.rep(cx, st, &[own, "C01"], "the position differs from where the wrapped parser left it");
                        }
                    }
                    (false, 0) => {
                        let good = match lock {
                            Lock::Option => self.err_is(cx, val, "Option") && cx.me_is_none(st, self.me.as_ref().unwrap()),
                            Lock::Mutex => self.err_is(cx, val, "Mutex") && st.g.contains_key("poisoned"),
                            Lock::Once => self.err_is(cx, val, "Option") && st.g.contains_key("poisoned"),
                            _ => false,
                        };
                        if !good {
                            self.rep(cx, st, &[own, "C15"], "fails without running the wrapped parser");
                        }
                    }
                    _ => self.rep(cx, st, &[own], "the outcome differs from the wrapped parser's"),
                }
            }
            Proto::Assert { flag, .. } => {
                cx.obligation("lookaround-exit");
                let f = cx.decide(st, &Atom::B(*flag))?;
                // 0 not tried, 1 matched, 2 failed
                if phv == 0 {
                    self.rep(cx, st, &[own], "the inner pattern is never tried");
                    return Ok(());
                }
                let want = (phv == 1) == f;
                if ok != want {
                    self.rep(cx, st, &[own], "the verdict of the assertion is wrong");
                    return Ok(());
                }
                if ok {
                    if !self.span_is(cx, st, val, off0, off0) {
                        self.rep(cx, st, &[own], "a successful assertion does not report an empty span at the entry position");
                    }
                } else if !self.err_is(cx, val, if f { "AssertTrue" } else { "AssertFalse" }) {
                    self.rep(cx, st, &["C15"], "the error code of a failed assertion is wrong");
                }
                if !self.eq(cx, st, off, off0) {
                    self.rep(cx, st, &[own], "an assertion consumes input");
                }
            }
            Proto::AnchorStart | Proto::AnchorEnd => {
                cx.obligation("anchor-exit");
                let start = matches!(self.proto, Proto::AnchorStart);
                let d = if start { off0.clone() } else { off0.sub(&self.len(cx, st)?) };
                let want = cx.decide(st, &Atom::Eq(d))?;
                if ok != want {
                    self.rep(cx, st, &[own], "the verdict of the anchor is wrong");
                    return Ok(());
                }
                if ok {
                    if !self.span_is(cx, st, val, off0, off0) || !self.eq(cx, st, off, off0) {
                        self.rep(cx, st, &[own], "an anchor consumes input");
                    }
                } else if !self.err_is(cx, val, if start { "AnchorStart" } else { "AnchorEnd" }) {
                    self.rep(cx, st, &["C15"], "the error code of a failed anchor is wrong");
                }
            }
            Proto::Consume => {
                cx.obligation("consume-exit");
                let len = self.len(cx, st)?;
                let me = self.me.as_ref().unwrap();
                let n = cx.to_lin(&cx.project(me, &PE::Field(0, 0, cx.tcx.types.usize)));
                let want = cx.decide(st, &Atom::Ge(len.sub(off0).sub(&n)))?;
                if ok != want {
                    self.rep(cx, st, &[own], "succeeds or fails although the remaining length says otherwise");
                    return Ok(());
                }
                if ok {
                    if !self.span_is(cx, st, val, off0, &off0.add(&n)) {
                        self.rep(cx, st, &[own], "does not consume exactly the requested length");
                    }
                } else if !self.err_is(cx, val, "Consume") {
                    self.rep(cx, st, &["C15"], "the error is not Consume");
                }
            }
            Proto::ConsumeAll => {
                cx.obligation("consume-exit");
                let len = self.len(cx, st)?;
                if !ok || !self.span_is(cx, st, val, off0, &len) {
                    self.rep(cx, st, &[own], "does not consume everything that remains");
                }
            }
            Proto::Empty => {
                cx.obligation("empty-exit");
                if !ok || !self.span_is(cx, st, val, off0, off0) {
                    self.rep(cx, st, &[own], "does not succeed with an empty span");
                }
            }
            Proto::Fail => {
                cx.obligation("fail-exit");
                if ok {
                    self.rep(cx, st, &[own], "succeeds");
                } else if !self.err_is(cx, val, "Fail") {
                    self.rep(cx, st, &["C15"], "the error is not Fail");
                }
            }
            Proto::Literal => self.literal_exit(cx, st, ok, val, off0)?,
            Proto::Neu(n) => self.neu_exit(cx, st, ok, val, off, off0, n)?,
        }
        Ok(())
    }

    // ---- literals ---------------------------------------------------------------------------
    fn literal_exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ok: bool, val: &Val<'tcx>, off0: &Lin) -> R<()> {
        let own = self.own;
        cx.obligation("literal-exit");
        let lit = match st.g.get("litlen") {
            Some(v) => v.lin().cloned(),
            None => None,
        };
        let hit = st.g.get("lithit").and_then(|v| v.variant());
        if ok {
            match (lit, hit) {
                (Some(n), Some(1)) => {
                    if !self.span_is(cx, st, val, off0, &off0.add(&n)) {
                        self.rep(cx, st, &[own], "the span is not the length of the literal");
                    }
                }
                _ => self.rep(cx, st, &[own], "succeeds although the input was not compared with the literal"),
            }
        } else {
            let len = self.len(cx, st)?;
            match (lit, hit, st.g.contains_key("origfail")) {
                (_, Some(0), _) => {
                    if !self.err_is(cx, val, "Literal") {
                        self.rep(cx, st, &["C15"], "the error is not Literal");
                    }
                }
                (_, _, true) => {}
                (Some(n), None, _) => {
                    if !st.facts.entails(&cx.tm, &Atom::Ge(n.sub(&len).add(off0).addk(-1))) {
                        self.rep(cx, st, &[own], "fails without comparing although enough input remains");
                    } else if !self.err_is(cx, val, "Literal") {
                        self.rep(cx, st, &["C15"], "the error is not Literal");
                    }
                }
                _ => self.rep(cx, st, &[own], "fails although the input starts with the literal"),
            }
        }
        Ok(())
    }
    fn literal_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let own = self.own;
        match ev.k {
            EvK::Opaque if ev.name.ends_with("LiteralTy::length") => {
                if !cx.mentions(&ev.args[0], self.me.as_ref().unwrap()) {
                    self.rep(cx, st, &[own], "the length compared is not the literal's");
                }
                st.g.insert("litlen", ev.res.clone());
            }
            EvK::Opaque if ev.name.ends_with("LiteralTy::prefix_of") || ev.name.ends_with("starts_with") => {
                let (lit, hay) = if ev.name.ends_with("starts_with") { (1, 0) } else { (0, 1) };
                cx.obligation("compare");
                if !cx.mentions(&ev.args[lit], self.me.as_ref().unwrap()) {
                    self.rep(cx, st, &[own], "the input is not compared with the literal");
                }
                let off0 = self.lin(st, "off0");
                if !cx.is_rest(st, &ev.args[hay], self.key, &off0, &self.len(cx, st)?) {
                    self.rep(cx, st, &[own], "the literal is not compared with the rest of the input");
                }
                if ev.name.ends_with("starts_with") && !st.g.contains_key("litlen") {
                    let l = cx.seq_len_of(st, &ev.args[lit]);
                    st.g.insert("litlen", Val::Lin(l));
                }
                let Val::Bool(c) = &ev.res else { return Ok(()) };
                let r = cx.decide_c(st, c)?;
                st.g.insert("lithit", Val::agg(r as u32, vec![]));
                if r {
                    // a prefix is not longer than the whole
                    if let Some(Val::Lin(n)) = st.g.get("litlen").cloned() {
                        let len = self.len(cx, st)?;
                        st.facts.add(&Atom::Ge(len.sub(&off0).sub(&n)), &cx.tm);
                    }
                }
            }
            EvK::Orig if ev.ok == Some(false) => {
                st.g.insert("origfail", Val::agg(1, vec![]));
            }
            _ => {}
        }
        Ok(())
    }

    // ---- character-class repetition -----------------------------------------------------------
    fn neu_event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>, n: &NeuSpec<'tcx>) -> R<()> {
        let own = self.own;
        // phases: 0 no item pending, 1 item pending, 2 item passed the class test,
        //         3 an item was rejected, 4 the items are exhausted, 5 the condition failed with an error,
        //         6 the context refused to be read
        let p = self.phase(st);
        match ev.k {
            EvK::Peek => {
                if ev.ok == Some(false) {
                    st.g.insert("err", ev.res.clone());
                    self.set_phase(st, 6);
                } else {
                    let off0 = self.lin(st, "off0");
                    if !self.eq(cx, st, ev.at.as_ref().unwrap(), &off0) {
                        self.rep(cx, st, &[own], "the input is read from a wrong position");
                    }
                }
            }
            EvK::Next => {
                if p >= 3 || st.g.contains_key("full") {
                    return Ok(()); // only looking for the boundary
                }
                if p == 1 || p == 2 {
                    // two items may be fetched before they are tested
                    if n.units.len() == 2 && ev.ok == Some(true) && p == 1 && !st.g.contains_key("item2") {
                        st.g.insert("item2", ev.res.clone());
                        let e = self.iter_end(st, ev);
                        self.set_lin(st, "end2", e);
                        return Ok(());
                    }
                    if n.units.len() == 2 && ev.ok == Some(false) {
                        st.g.insert("short", Val::agg(1, vec![]));
                        return Ok(());
                    }
                    self.rep(cx, st, &[own], "an item is skipped without being tested");
                    return Ok(());
                }
                if ev.ok == Some(true) {
                    let cnt = self.lin(st, "cnt");
                    // past the limit the next item only marks the boundary
                    if let Some(m) = self.upper(cx, st, &n.hi)? {
                        if !cx.decide(st, &Atom::Ge(m.sub(&cnt).addk(-1)))? {
                            st.g.insert("full", Val::agg(1, vec![]));
                            return Ok(());
                        }
                    }
                    st.g.insert("item", ev.res.clone());
                    let e = self.iter_end(st, ev);
                    self.set_lin(st, "iend", e);
                    self.set_phase(st, 1);
                } else {
                    self.set_phase(st, 4);
                }
            }
            EvK::IsMatch => {
                cx.obligation("class-test");
                let cnt = self.lin(st, "cnt");
                if p != 1 {
                    if p == 0 && st.g.contains_key("item2") {
                        // second prefetched item
                        let it = st.g.remove("item2").unwrap();
                        st.g.insert("item", it);
                        let e = self.lin(st, "end2");
                        st.g.remove("end2");
                        self.set_lin(st, "iend", e);
                    } else {
                        self.rep(cx, st, &[own], "a class test is made when no item is pending");
                        return Ok(());
                    }
                }
                let u = match cnt.is_const() {
                    Some(k) => n.units[(k as usize).min(n.units.len() - 1)],
                    None => *n.units.last().unwrap(),
                };
                if ev.subj_ty != Some(u) || !cx.mentions(&ev.subj, self.me.as_ref().unwrap()) {
                    self.rep(cx, st, &[own], "an item is tested against the wrong class");
                }
                let item = st.g.get("item").and_then(|v| v.fld(1).cloned()).unwrap_or(Val::Undef);
                if !self.same(cx, st, &ev.args[0], &item) {
                    self.rep(cx, st, &[own], "the class test looks at a different item");
                }
                self.set_phase(st, if ev.ok == Some(true) { 2 } else { 3 });
            }
            EvK::Check => {
                cx.obligation("condition-test");
                if p != 2 {
                    self.rep(cx, st, &[own], "the condition is evaluated for an item that did not pass the class test");
                    return Ok(());
                }
                if ev.subj_ty != Some(n.cond) {
                    self.rep(cx, st, &[own], "the wrong condition is evaluated");
                }
                let off0 = self.lin(st, "off0");
                if ev.at.as_ref().is_some_and(|a| !self.eq(cx, st, a, &off0)) {
                    self.rep(cx, st, &[own], "the condition sees a wrong position");
                }
                let item = st.g.get("item").cloned().unwrap_or(Val::Undef);
                if !self.same(cx, st, &ev.args[0], &item) {
                    self.rep(cx, st, &[own], "the condition looks at a different item");
                }
                match ev.ok {
                    Some(true) => {
                        let c = self.lin(st, "cnt");
                        self.set_lin(st, "cnt", c.addk(1));
                        let e = self.lin(st, "iend");
                        let off0 = self.lin(st, "off0");
                        self.set_lin(st, "acc", off0.add(&e));
                        self.set_phase(st, 0);
                    }
                    Some(false) => self.set_phase(st, 3),
                    None => {
                        st.g.insert("err", ev.res.clone());
                        self.set_phase(st, 5);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn iter_end(&self, st: &State<'tcx>, ev: &Ev<'tcx>) -> Lin {
        match &ev.subj {
            Val::Sym(s, _) => st.iters.get(s).map(|i| i.pos.clone()).unwrap_or_default(),
            _ => Lin::default(),
        }
    }
    fn neu_exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ok: bool, val: &Val<'tcx>, _off: &Lin, off0: &Lin, n: &NeuSpec<'tcx>) -> R<()> {
        let own = self.own;
        cx.obligation("class-exit");
        let p = self.phase(st);
        let cnt = self.lin(st, "cnt");
        let acc = self.lin(st, "acc");
        let e = st.g.get("err").cloned().unwrap_or(Val::Undef);
        if p == 5 {
            if ok || !self.same(cx, st, val, &e) {
                self.rep(cx, st, &[own, "C15"], "an error of the condition is not reported");
            }
            return Ok(());
        }
        let lo = self.lower(cx, st, &n.lo)?;
        if p == 6 {
            if n.err.is_some() {
                if ok || !self.same(cx, st, val, &e) {
                    self.rep(cx, st, &[own, "C15"], "an error of reading the input is not reported");
                }
            } else if !ok || !self.span_is(cx, st, val, off0, off0) {
                self.rep(cx, st, &[own], "does not succeed empty when the input cannot be read");
            }
            return Ok(());
        }
        if p == 1 || p == 2 {
            let two_short = n.units.len() == 2 && st.g.contains_key("short");
            if !two_short {
                self.rep(cx, st, &[own], "ends with an item neither accepted nor rejected");
                return Ok(());
            }
        }
        let enough = {
            let mut r = cx.decide(st, &Atom::Ge(cnt.sub(&lo)))?;
            if r {
                r = self.below(cx, st, &n.hi, &cnt)?;
            }
            r
        };
        // why did it stop?
        let stopped = p == 3 || p == 4 || st.g.contains_key("short") || {
            match self.upper(cx, st, &n.hi)? {
                Some(m) => st.facts.entails(&cx.tm, &Atom::Ge(cnt.sub(&m))),
                None => false,
            }
        };
        if ok {
            if !enough {
                self.rep(cx, st, &[own], "succeeds with a count outside the requested range");
                return Ok(());
            }
            if !stopped {
                self.rep(cx, st, &[own], "stops although more items could match");
            }
            if !self.span_is(cx, st, val, off0, &acc) {
                self.rep(cx, st, &[own, "C03"], "the span does not cover exactly the accepted items");
            }
        } else {
            let Some(code) = n.err else {
                self.rep(cx, st, &[own], "fails although it may match nothing");
                return Ok(());
            };
            if !stopped {
                // an early rejection must be justified by the remaining length
                cx.obligation("prefilter");
                if !self.prefilter_ok(cx, st, n, off0)? {
                    self.rep(cx, st, &["C17", own], "rejects without looking although enough input may remain");
                }
                if !self.err_is(cx, val, code) {
                    self.rep(cx, st, &["C15"], format!("the error is not {code}"));
                }
                return Ok(());
            }
            if enough {
                self.rep(cx, st, &[own], "fails although the count is inside the requested range");
                return Ok(());
            }
            if !self.err_is(cx, val, code) {
                self.rep(cx, st, &["C15"], format!("the error is not {code}"));
            }
        }
        Ok(())
    }
    /// remaining < (number of items still required) * (minimum length of an item)
    fn prefilter_ok(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, n: &NeuSpec<'tcx>, off0: &Lin) -> R<bool> {
        let len = self.len(cx, st)?;
        let rem = len.sub(off0);
        let ml = |u: Ty<'tcx>| -> Option<Lin> {
            // the unit is the field of this type
            let me = self.me.as_ref().unwrap();
            let f = cx.field_by_ty(me, u)?;
            Some(Lin::s(cx.tm.app("min_length", vec![f], true)))
        };
        let mut cand: Vec<Lin> = vec![];
        if n.units.len() == 2 {
            if let (Some(a), Some(b)) = (ml(n.units[0]), ml(n.units[1])) {
                cand.push(a.add(&b));
            }
        } else if let Some(m) = ml(n.units[0]) {
            let lo = self.lower(cx, st, &n.lo)?;
            cand.push(cx.mul(&lo, &m));
            cand.push(cx.mul(&lo.addk(-1), &m));
            cand.push(cx.mul(&lo.addk(-2), &m));
            // products of the minimum length with any number of items not above the required one
            let syms: Vec<Sym> = st.facts.ge.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
            for y in syms {
                if let SymKind::App(h, a) = cx.tm.kind(y) {
                    if &*h == "*mul" {
                        let (p, q) = (cx.to_lin(&a[0]), cx.to_lin(&a[1]));
                        let k = if p == m { q } else if q == m { p } else { continue };
                        if st.facts.entails(&cx.tm, &Atom::Ge(lo.sub(&k))) {
                            cand.push(Lin::s(y));
                        }
                    }
                }
            }
        }
        // nothing remains and at least one item is required
        let lo = self.lower(cx, st, &n.lo)?;
        if st.facts.entails(&cx.tm, &Atom::Ge(rem.neg())) && st.facts.entails(&cx.tm, &Atom::Ge(lo.addk(-1))) {
            return Ok(true);
        }
        Ok(cand.iter().any(|c| st.facts.entails(&cx.tm, &Atom::Ge(c.sub(&rem).addk(-1)))))
    }
}

const VK: [&str; 6] = ["v0", "v1", "v2", "v3", "v4", "v5"];

impl<'tcx> Monitor<'tcx> for Spec<'tcx> {
    fn start(&self, _cx: &Cx<'tcx>, st: &mut State<'tcx>) -> R<()> {
        self.start_regs(st);
        Ok(())
    }
    fn event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let own = self.own;
        match ev.k {
            EvK::Panic => {
                if !matches!(self.proto, Proto::Unsupported) {
                    let a: Vec<String> = ev.args.iter().map(|a| cx.tm.show(a)).collect();
                    let _ = a;
                    self.rep(cx, st, &["C21"], format!("may panic: {}", ev.name));
                }
                return Ok(());
            }
            EvK::Lock => {
                if ev.ok == Some(false) {
                    st.g.insert("poisoned", Val::agg(1, vec![]));
                }
                return Ok(());
            }
            EvK::Push | EvK::ArrSet => return self.store_event(cx, st, ev),
            EvK::Room => {
                cx.obligation("room");
                if let (Proto::Loop(LoopSpec { hi: Bound2::Range((s, _), _), lo, .. }), Some(n)) = (&self.proto, ev.args.first().and_then(|v| v.lin())) {
                    // an upper limit may be any number: room for that many need not exist
                    let mut some = vec![Lin::k(1 << 40)];
                    if let Bound2::Range((l, _), _) = lo {
                        some.extend((0..2).map(|v| self.bound_val(cx, *l, v)));
                    }
                    if n.t.iter().any(|x| x.1 > 0 && cx.sym_mentions(x.0, *s)) && !some.iter().any(|b| st.facts.entails(&cx.tm, &Atom::Ge(b.sub(n)))) {
                        self.rep(cx, st, &["C21"], "may panic: room for as many elements as the upper limit allows");
                    }
                }
                return Ok(());
            }
            EvK::Parse if self.verdict && self.me.as_ref().is_some_and(|m| self.same(cx, st, &cx.peel_val(st, &ev.subj), m)) => {
                st.g.insert("itself", Val::agg((ev.ok == Some(true)) as u32, vec![]));
                return Ok(());
            }
            _ => {}
        }
        match &self.proto {
            Proto::Literal => return self.literal_event(cx, st, ev),
            Proto::Neu(n) => {
                if Self::is_attempt(ev) {
                    self.rep(cx, st, &[own], format!("{} is run", ev.name));
                    return Ok(());
                }
                return self.neu_event(cx, st, ev, n);
            }
            _ => {}
        }
        if !Self::is_attempt(ev) {
            return Ok(());
        }
        if self.recursive {
            cx.obligation("re-entry");
            let locked = st.held.iter().any(|s| matches!(cx.tm.kind(*s), SymKind::App(h, _) if &*h == "exclusive"));
            if locked {
                self.rep(cx, st, &["C22"], "the pattern inside is run while the cell it is in is locked, so it cannot be entered again");
            }
        }
        let direct = match &self.proto {
            Proto::Seq { parts, .. } => parts.iter().any(|p| p.how == How::Parse),
            Proto::Forward { how, .. } => *how == How::Parse,
            Proto::Generic | Proto::PolicyMat => true,
            _ => false,
        };
        if ev.k == EvK::Parse && !direct && matches!(self.side, Side::Ctor | Side::Regex) {
            cx.obligation("skip policy");
            self.rep(cx, st, &["C14"], "a part is matched without the skip policy");
        }
        match &self.proto {
            Proto::Seq { parts, .. } => self.seq_event(cx, st, ev, parts)?,
            Proto::Choice { alts, longest } => self.choice_event(cx, st, ev, alts, *longest)?,
            Proto::Elems { .. } => self.elems_event(cx, st, ev)?,
            Proto::Loop(l) => self.loop_event(cx, st, ev, l)?,
            Proto::Opt { part } => {
                let off0 = self.lin(st, "off0");
                cx.obligation("attempt");
                if self.phase(st) != 0 {
                    self.rep(cx, st, &[own], "the optional pattern is tried more than once");
                    return Ok(());
                }
                self.expect(cx, st, ev, part, &off0);
                if ev.ok == Some(true) {
                    let o = self.off(cx, st)?;
                    self.set_lin(st, "acc", o);
                    st.g.insert("val", ev.res.clone());
                    self.set_phase(st, 1);
                } else {
                    self.set_phase(st, 2);
                }
            }
            Proto::IfThen { first, test, then } => {
                let acc = self.lin(st, "acc");
                let p = self.phase(st);
                cx.obligation("part");
                let (part, i) = match p {
                    0 => (first, 0),
                    1 => (test, 1),
                    2 => (then, 2),
                    _ => {
                        self.rep(cx, st, &[own], format!("{} is run after the conditional was decided", ev.name));
                        return Ok(());
                    }
                };
                self.expect(cx, st, ev, part, &acc);
                if ev.ok == Some(true) {
                    let o = self.off(cx, st)?;
                    self.set_lin(st, "acc", o);
                    st.g.insert(VK[i], ev.res.clone());
                    self.set_phase(st, p + 1);
                } else if i == 1 {
                    self.set_phase(st, 12);
                } else {
                    st.g.insert("err", ev.res.clone());
                    self.set_phase(st, 100 + i as u32);
                }
            }
            Proto::Branch { test, yes, no } => {
                let off0 = self.lin(st, "off0");
                let p = self.phase(st);
                cx.obligation("part");
                match p {
                    0 => {
                        let part = Part { who: Who::Ty(*test), how: How::Fun, nm: "the test" };
                        self.expect(cx, st, ev, &part, &off0);
                        match (ev.ok, ev.res.fld(0)) {
                            (Some(true), Some(Val::Bool(Cond::K(b)))) => self.set_phase(st, if *b { 1 } else { 2 }),
                            (Some(false), Some(e)) => {
                                st.g.insert("err", e.clone());
                                self.set_phase(st, 100)
                            }
                            _ => self.rep(cx, st, &[own], "the outcome of the test is not understood"),
                        }
                    }
                    1 | 2 => {
                        self.expect(cx, st, ev, if p == 1 { yes } else { no }, &off0);
                        if ev.ok == Some(true) {
                            let o = self.off(cx, st)?;
                            self.set_lin(st, "acc", o);
                            st.g.insert("val", ev.res.clone());
                            self.set_phase(st, 3);
                        } else {
                            st.g.insert("err", ev.res.clone());
                            self.set_phase(st, 100);
                        }
                    }
                    _ => self.rep(cx, st, &[own], format!("{} is run after the chosen side", ev.name)),
                }
            }
            Proto::Leaf { who } => {
                let p = self.phase(st);
                let off0 = self.lin(st, "off0");
                match (p, ev.k) {
                    (0, EvK::Mat | EvK::Parse) => {
                        cx.obligation("leaf-match");
                        if ev.k == EvK::Parse {
                            self.rep(cx, st, &["C14"], "the pattern is matched without the skip policy");
                        }
                        if !self.is_who(cx, st, ev, who) {
                            self.rep(cx, st, &["C12", "C29"], "the pattern matched is not the parser's own");
                        }
                        if !self.eq(cx, st, ev.at.as_ref().unwrap(), &off0) {
                            self.rep(cx, st, &["C12"], "the pattern is matched at a wrong position");
                        }
                        if ev.ok == Some(true) {
                            st.g.insert("span", ev.res.clone());
                            let o = self.off(cx, st)?;
                            self.set_lin(st, "acc", o);
                            self.set_phase(st, 1);
                        } else {
                            st.g.insert("err", ev.res.clone());
                            self.set_phase(st, 100);
                        }
                    }
                    (1, EvK::Invoke) => {
                        cx.obligation("handler-call");
                        let sp = st.g.get("span").cloned().unwrap_or(Val::Undef);
                        if !self.same(cx, st, &ev.args[0], &sp) {
                            self.rep(cx, st, &["C12"], "the handler receives a span other than the matched one");
                        }
                        if let Some(h) = &self.handler {
                            if !self.same(cx, st, h, &ev.subj) {
                                self.rep(cx, st, &["C12"], "a different handler is called");
                            }
                        }
                        if ev.ctx != self.key {
                            self.rep(cx, st, &["C12"], "the handler sees a different context");
                        }
                        let acc = self.lin(st, "acc");
                        if !self.eq(cx, st, ev.at.as_ref().unwrap(), &acc) {
                            self.rep(cx, st, &["C12"], "the handler sees a wrong position");
                        }
                        if ev.ok == Some(true) {
                            st.g.insert("val", ev.res.clone());
                            self.set_phase(st, 2);
                        } else {
                            st.g.insert("err", ev.res.clone());
                            st.g.insert("user_rejected", Val::agg(1, vec![]));
                            self.set_phase(st, 101);
                        }
                    }
                    (2 | 101, EvK::Invoke) => self.rep(cx, st, &["C12"], "the handler is called more than once"),
                    (0 | 100, EvK::Invoke) => self.rep(cx, st, &["C12"], "the handler is called without a match"),
                    _ => self.rep(cx, st, &["C12"], format!("{} is run unexpectedly", ev.name)),
                }
            }
            Proto::Forward { how, .. } => {
                cx.obligation("forward");
                if self.phase(st) != 0 {
                    self.rep(cx, st, &[own], "the wrapped parser is run more than once");
                    return Ok(());
                }
                let p = Part { who: Who::Inner, how: *how, nm: "the wrapped parser" };
                let off0 = self.lin(st, "off0");
                self.expect(cx, st, ev, &p, &off0);
                let r = if ev.k == EvK::CallFn { ev.res.fld(0).cloned().unwrap_or(ev.res.clone()) } else { ev.res.clone() };
                if self.ctx.is_some() {
                    let o = self.off(cx, st)?;
                    self.set_lin(st, "acc", o);
                }
                if ev.ok == Some(true) {
                    st.g.insert("val", r);
                    self.set_phase(st, 1);
                } else {
                    st.g.insert("err", r);
                    self.set_phase(st, 100);
                }
            }
            Proto::Assert { pat, .. } => {
                cx.obligation("attempt");
                if self.phase(st) != 0 {
                    self.rep(cx, st, &[own], "the inner pattern is tried more than once");
                    return Ok(());
                }
                let off0 = self.lin(st, "off0");
                let p = Part { who: Who::Ty(*pat), how: How::Mat, nm: "the inner pattern" };
                self.expect(cx, st, ev, &p, &off0);
                self.set_phase(st, if ev.ok == Some(true) { 1 } else { 2 });
            }
            Proto::AnchorStart | Proto::AnchorEnd | Proto::Consume | Proto::ConsumeAll | Proto::Empty | Proto::Fail => {
                self.rep(cx, st, &[own], format!("{} is run", ev.name));
            }
            _ => {}
        }
        Ok(())
    }
    fn exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()> {
        self.exit_inner(cx, st, ret)
    }
}

pub fn ctx_arg<'tcx>(cx: &Cx<'tcx>, tys: &[Ty<'tcx>], side: Side) -> Option<usize> {
    let strict = tys.iter().position(|t| matches!(t.kind(), ty::Ref(_, x, m) if m.is_mut() && cx.is_ctx_ty(*x)));
    if strict.is_some() {
        return strict;
    }
    // `C` without bounds: the second argument of the traits' methods
    match side {
        Side::Regex | Side::Ctor if tys.len() >= 2 => {
            matches!(tys[1].kind(), ty::Ref(_, _, m) if m.is_mut()).then_some(1)
        }
        _ => None,
    }
}

impl<'tcx> Cx<'tcx> {
    pub fn eq(&self, st: &State<'tcx>, a: &Lin, b: &Lin) -> bool {
        st.facts.entails(&self.tm, &Atom::Eq(a.sub(b)))
    }
    pub fn same(&self, st: &State<'tcx>, a: &Val<'tcx>, b: &Val<'tcx>) -> bool {
        if a == b {
            return true;
        }
        match (a, b) {
            (Val::Lin(x), Val::Lin(y)) => self.eq(st, x, y),
            (Val::Agg(v, f), Val::Agg(w, g)) => {
                v == w && f.len() == g.len() && f.iter().zip(g.iter()).all(|(x, y)| self.same(st, x, y))
            }
            (Val::Sym(s, _), Val::Sym(r, _)) => {
                s == r || {
                    // elements of the same sequence at equal indices
                    match (self.tm.kind(*s), self.tm.kind(*r)) {
                        (SymKind::App(h, a), SymKind::App(k, b)) => {
                            h == k && a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| self.same(st, x, y))
                        }
                        _ => false,
                    }
                }
            }
            // a structure seen as a symbol and as its fields
            (Val::Sym(s, t), Val::Agg(w, f)) | (Val::Agg(w, f), Val::Sym(s, t)) => {
                let e = matches!(t.kind(), ty::Adt(d, _) if d.is_enum());
                if e {
                    let d = Lin::s(self.tm.app("discr", vec![Val::Sym(*s, *t)], true));
                    if !st.facts.entails(&self.tm, &Atom::Eq(d.addk(-(*w as i128)))) {
                        return false;
                    }
                    if f.is_empty() {
                        return true;
                    }
                }
                if f.is_empty() {
                    return false;
                }
                match self.explode(*s, *t, *w) {
                    Val::Agg(_, g) => g.len() == f.len() && f.iter().zip(g.iter()).all(|(x, y)| self.same(st, x, y)),
                    _ => false,
                }
            }
            (Val::Ref(p), Val::Ref(q)) => {
                p.root == q.root
                    && p.path.len() == q.path.len()
                    && p.path.iter().zip(&q.path).all(|(x, y)| match (x, y) {
                        (PE::Index(a, _), PE::Index(b, _)) => self.eq(st, a, b),
                        (x, y) => x == y,
                    })
            }
            _ => false,
        }
    }

    /// does the value denote something reached through `root`?
    /// is every slot of the (nested) array empty? `None`: not known
    pub fn all_none(&self, v: &Val<'tcx>) -> Option<bool> {
        match v {
            Val::Arr(s, _) => match self.tm.kind(*s) {
                SymKind::App(h, a) if &*h == "arr" => match &a[0] {
                    x @ (Val::Arr(..) | Val::Sym(..)) => self.all_none(x),
                    x => Some(*x == self.none()),
                },
                _ => None,
            },
            Val::Sym(s, _) => match self.tm.kind(*s) {
                SymKind::App(h, a) if &*h == "arr" => self.all_none(&a[0]),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn mentions(&self, v: &Val<'tcx>, root: &Val<'tcx>) -> bool {
        match root {
            Val::Sym(s, _) => self.mentions_sym(v, *s),
            r => v == r,
        }
    }
    pub fn mentions_sym(&self, v: &Val<'tcx>, s: Sym) -> bool {
        match v {
            Val::Sym(x, _) => self.sym_mentions(*x, s),
            Val::Lin(l) => l.t.iter().any(|x| self.sym_mentions(x.0, s)),
            Val::Ref(p) => match p.root {
                Root::Ext(x) => {
                    self.sym_mentions(x, s) || self.derefs_to(x, s)
                }
                _ => false,
            },
            Val::Agg(_, f) => f.iter().any(|x| self.mentions_sym(x, s)),
            Val::It { base, .. } => matches!(base.root, Root::Ext(x) if self.sym_mentions(x, s)),
            _ => false,
        }
    }
    /// is `s` obtained from `x` by following references only?
    fn derefs_to(&self, x: Sym, s: Sym) -> bool {
        match self.tm.kind(s) {
            SymKind::App(h, a) if &*h == "*" => match a[0] {
                Val::Sym(y, _) => y == x || self.derefs_to(x, y),
                _ => false,
            },
            _ => false,
        }
    }
    fn sym_mentions(&self, x: Sym, s: Sym) -> bool {
        if x == s {
            return true;
        }
        match self.tm.kind(x) {
            SymKind::App(_, a) => a.iter().any(|v| self.mentions_sym(v, s)),
            _ => false,
        }
    }
    pub fn sym_val(&self, s: Sym) -> Val<'tcx> {
        Val::Sym(s, self.tm.sym_ty(s).unwrap_or(self.tcx.types.unit))
    }
    /// index of the list element denoted by `v`
    pub fn elem_index(&self, v: &Val<'tcx>, pair: bool) -> Option<Lin> {
        let Val::Sym(s, _) = v else { return None };
        match self.tm.kind(*s) {
            SymKind::App(h, a) => {
                if &*h == "[]" && !pair {
                    return a[1].lin().cloned();
                }
                if pair && &*h == ".0" {
                    return self.elem_index(&a[0], false);
                }
                None
            }
            _ => None,
        }
    }
    /// index of the element whose second component is `v`
    pub fn elem_index_field(&self, v: &Val<'tcx>) -> Option<Lin> {
        let Val::Sym(s, _) = v else { return None };
        match self.tm.kind(*s) {
            SymKind::App(h, a) if &*h == ".1" => self.elem_index(&a[0], false),
            _ => None,
        }
    }
    /// number of elements of the list parser `me`
    pub fn elem_count(&self, st: &State<'tcx>, me: &Val<'tcx>) -> Option<Lin> {
        let Val::Sym(s, t) = me else { return None };
        for (i, ft) in self.variant_fields(*t, 0).into_iter().enumerate() {
            let f = self.proj_sym(*s, *t, 0, i as u32, ft);
            match ft.kind() {
                ty::Array(_, n) => return Some(self.const_lin(*n)),
                ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(_)) => {
                    if let Val::Ref(p) = f {
                        return Some(self.seq_len(st, &p));
                    }
                }
                ty::Adt(_, a) if self.adt_name(ft) == "Vec" => {
                    let sl = Ty::new_slice(self.tcx, a.type_at(0));
                    let r = self.app("deref", vec![f], Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, sl));
                    if let Val::Ref(p) = r {
                        return Some(self.seq_len(st, &p));
                    }
                }
                _ => {}
            }
        }
        None
    }
    pub fn me_is_none(&self, st: &State<'tcx>, me: &Val<'tcx>) -> bool {
        let d = Lin::s(self.tm.app("discr", vec![me.clone()], true));
        st.facts.entails(&self.tm, &Atom::Eq(d))
    }
    pub fn field_by_ty(&self, me: &Val<'tcx>, t: Ty<'tcx>) -> Option<Val<'tcx>> {
        let Val::Sym(s, mt) = me else { return None };
        self.variant_fields(*mt, 0).into_iter().enumerate().find(|(_, ft)| *ft == t).map(|(i, ft)| self.proj_sym(*s, *mt, 0, i as u32, ft))
    }
    /// the field an accessor of the same name returns, or the field of that name
    pub fn field_named(&self, t: Ty<'tcx>, name: &str) -> Option<(u32, Ty<'tcx>)> {
        let ty::Adt(d, _) = t.kind() else { return None };
        if let Some(i) = self.field_ix(t, name) {
            return Some((i as u32, self.variant_fields(t, 0)[i]));
        }
        for imp in self.tcx.inherent_impls(d.did()) {
            for it in self.tcx.associated_items(*imp).in_definition_order() {
                if it.name().as_str() == name && self.tcx.def_kind(it.def_id) == DefKind::AssocFn && self.tcx.is_mir_available(it.def_id) {
                    let b = self.tcx.optimized_mir(it.def_id);
                    for st in b.basic_blocks.iter().flat_map(|x| &x.statements) {
                        if let mir::StatementKind::Assign(a) = &st.kind {
                            let pl = match &a.1 {
                                mir::Rvalue::Use(mir::Operand::Copy(p) | mir::Operand::Move(p), _) => p,
                                mir::Rvalue::Ref(_, _, p) => p,
                                _ => continue,
                            };
                            for e in pl.projection.iter() {
                                if let mir::ProjectionElem::Field(f, _) = e {
                                    return Some((f.as_u32(), self.variant_fields(t, 0)[f.as_usize()]));
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }
    pub fn mul(&self, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = a.is_const() {
            return b.scale(k);
        }
        if let Some(k) = b.is_const() {
            return a.scale(k);
        }
        // distribute over single symbols
        let mut r = Lin::k(a.c * b.c);
        for (s, k) in &a.t {
            r = r.add(&Lin::s(*s).scale(k * b.c));
        }
        for (s, k) in &b.t {
            r = r.add(&Lin::s(*s).scale(k * a.c));
        }
        for (s, k) in &a.t {
            for (u, m) in &b.t {
                let (x, y) = if s <= u { (*s, *u) } else { (*u, *s) };
                let nn = self.tm.nonneg(x) && self.tm.nonneg(y);
                let p = self.tm.app("*mul", vec![Val::Lin(Lin::s(x)), Val::Lin(Lin::s(y))], nn);
                r = r.add(&Lin::s(p).scale(k * m));
            }
        }
        r
    }
    /// is `v` the remaining input of the context from `off`?
    pub fn is_rest(&self, st: &State<'tcx>, v: &Val<'tcx>, key: Option<Sym>, off: &Lin, len: &Lin) -> bool {
        let Val::Sym(s, _) = v else { return false };
        let SymKind::App(h, a) = self.tm.kind(*s) else { return false };
        match &*h {
            "*" => self.is_rest(st, &a[0], key, off, len),
            "orig" => {
                let Val::Sym(k, _) = &a[0] else { return false };
                Some(*k) == key
                    && a[1].lin().is_some_and(|x| st.facts.entails(&self.tm, &Atom::Eq(x.sub(off))))
                    && a[2].lin().is_some_and(|x| st.facts.entails(&self.tm, &Atom::Eq(x.sub(len).add(off))))
            }
            _ => false,
        }
    }
    /// length of a text or byte literal
    pub fn text_len(&self, st: &State<'tcx>, v: &Val<'tcx>) -> Option<Lin> {
        let Val::Sym(_, t) = v else { return None };
        match t.kind() {
            ty::Str | ty::Slice(_) => Some(Lin::s(self.tm.app("len", vec![v.clone()], true))),
            ty::Array(_, n) => Some(self.const_lin(*n)),
            ty::Adt(d, a) if !d.did().is_local() => {
                let inner = match self.adt_name(*t).as_str() {
                    "String" => self.tcx.types.str_,
                    "Vec" => Ty::new_slice(self.tcx, a.type_at(0)),
                    _ => return None,
                };
                let r = self.app("deref", vec![v.clone()], Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, inner));
                match r {
                    Val::Ref(p) => Some(self.seq_len(st, &p)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    pub fn seq_len_of(&self, st: &State<'tcx>, v: &Val<'tcx>) -> Lin {
        match v {
            Val::Ref(p) => self.seq_len(st, p),
            Val::Str(s) => Lin::k(s.len() as i128),
            Val::Sym(_, t) if matches!(t.kind(), ty::Array(..)) => match t.kind() {
                ty::Array(_, n) => self.const_lin(*n),
                _ => unreachable!(),
            },
            v => Lin::s(self.tm.app("len", vec![v.clone()], true)),
        }
    }
}

/// What is being analysed, and which specification applies to it.
pub struct Target<'tcx> {
    pub side: Side,
    pub proto: Proto<'tcx>,
    pub own: &'static str,
    pub label: String,
}

pub fn side_of<'tcx>(cx: &Cx<'tcx>, did: DefId) -> Option<Side> {
    let tcx = cx.tcx;
    let nm = tcx.item_name(did);
    let tr = tcx.trait_of_assoc(did).or_else(|| {
        let p = tcx.opt_parent(did)?;
        match tcx.def_kind(p) {
            DefKind::Impl { of_trait: true } => Some(tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().def_id),
            _ => None,
        }
    })?;
    if !tr.is_local() {
        return None;
    }
    Some(match (tcx.item_name(tr).as_str(), nm.as_str()) {
        ("Regex", "try_parse") => Side::Regex,
        // the short form, where an implementation has one of its own
        ("Regex", "parse") if tcx.trait_of_assoc(did).is_none() => Side::Regex,
        ("Ctor", "construct") => Side::Ctor,
        ("Match", "try_mat") => Side::Mat,
        ("PolicyMatch", "try_mat_policy") => Side::PolicyMat,
        _ => return None,
    })
}

pub fn target<'tcx>(cx: &Cx<'tcx>, side: Side, self_ty: Ty<'tcx>, me: &Val<'tcx>) -> Target<'tcx> {
    let mk = |proto: Proto<'tcx>, own: &'static str| Target { side, proto, own, label: String::new() };
    let ctor = side == Side::Ctor;
    let sub = if ctor { How::Cons } else { How::Mat };
    let part = |t: Ty<'tcx>, how: How, nm: &'static str| Part { who: Who::Ty(t), how, nm };
    match side {
        Side::Mat => {
            let n = cx.adt_name(self_ty);
            let pat = Part { who: Who::Arg(2), how: How::Parse, nm: "the pattern" };
            return if n == "PolicyCtx" {
                let ty::Adt(_, a) = self_ty.kind() else { unreachable!() };
                mk(
                    Proto::Seq {
                        parts: vec![part(a.type_at(1), How::Parse, "the skip pattern"), pat],
                        out: Out::SpanOf(1),
                    },
                    "C14",
                )
            } else if n == "RegexCtx" {
                mk(Proto::Seq { parts: vec![pat], out: Out::SpanOf(0) }, "C14")
            } else {
                mk(Proto::Generic, "C14")
            };
        }
        Side::PolicyMat => {
            let p = |i: u32, nm: &'static str| Part { who: Who::Arg(i), how: How::Parse, nm };
            return mk(
                Proto::Seq {
                    parts: vec![p(3, "the before pattern"), p(2, "the pattern"), p(4, "the after pattern")],
                    out: Out::SpanOf(1),
                },
                "C14",
            );
        }
        _ => {}
    }
    if self_ty.is_unit() {
        return mk(Proto::Empty, "C19");
    }
    let Val::Sym(ms, _) = me else { return mk(Proto::Generic, "C09") };
    let field = |name: &str| -> Option<Val<'tcx>> {
        let (i, ft) = cx.field_named(self_ty, name)?;
        Some(cx.proj_sym(*ms, self_ty, 0, i, ft))
    };
    // by name, or the only field of that type
    let only = |t: Ty<'tcx>| -> Option<Val<'tcx>> {
        let v: Vec<usize> = cx.variant_fields(self_ty, 0).iter().enumerate().filter(|x| *x.1 == t).map(|x| x.0).collect();
        if v.len() == 1 { Some(cx.proj_sym(*ms, self_ty, 0, v[0] as u32, t)) } else { None }
    };
    let flag = |name: &str| -> Option<Sym> {
        match field(name).or_else(|| only(cx.tcx.types.bool)) {
            Some(Val::Bool(Cond::A(Atom::B(s)))) => Some(s),
            _ => None,
        }
    };
    let num = |name: &str| -> Option<Lin> { field(name).or_else(|| only(cx.tcx.types.usize)).and_then(|v| v.lin().cloned()) };
    let consts = |a: ty::GenericArgsRef<'tcx>| -> Vec<Lin> { a.consts().map(|c| cx.const_lin(c)).collect() };
    let range_field = || -> Option<(Sym, Sym)> {
        let (i, ft) = cx.variant_fields(self_ty, 0).into_iter().enumerate().find(|(_, t)| cx.is_local_adt(*t, "CRange"))?;
        let Val::Sym(r, _) = cx.proj_sym(*ms, self_ty, 0, i as u32, ft) else { return None };
        let inner = cx.variant_fields(ft, 0);
        // a pair of bounds, or two bounds
        let (b0, b1) = match inner[0].kind() {
            ty::Tuple(l) => {
                let Val::Agg(_, f) = cx.proj_sym(r, ft, 0, 0, inner[0]) else { return None };
                let _ = l;
                (f[0].clone(), f[1].clone())
            }
            _ => (cx.proj_sym(r, ft, 0, 0, inner[0]), cx.proj_sym(r, ft, 0, 1, inner[1])),
        };
        match (b0, b1) {
            (Val::Sym(a, x), Val::Sym(b, y)) => {
                cx.tm.set_sym_ty(a, x);
                cx.tm.set_sym_ty(b, y);
                Some((a, b))
            }
            _ => None,
        }
    };
    let local = matches!(self_ty.kind(), ty::Adt(d, _) if d.did().is_local());
    let name = cx.adt_name(self_ty);
    if local {
        let ty::Adt(_, a) = self_ty.kind() else { unreachable!() };
        let tys: Vec<Ty<'tcx>> = a.types().collect();
        let loopspec = |pat: Ty<'tcx>, sep: Option<Ty<'tcx>>, lo: Bound2, hi: Bound2, skip: Option<Sym>, err: &'static str, out: LoopOut| {
            Proto::Loop(LoopSpec { pat, sep, lo, hi, skip, err, out: if ctor { out } else { LoopOut::Span } })
        };
        let missing = || mk(Proto::Generic, "missing");
        match name.as_str() {
            "Then" => {
                return mk(
                    Proto::Seq {
                        parts: vec![part(tys[1], sub, "the left part"), part(tys[2], sub, "the right part")],
                        out: if ctor { Out::Pair(0, 1) } else { Out::Whole },
                    },
                    "C09",
                );
            }
            "SepOnce" => {
                return mk(
                    Proto::Seq {
                        parts: vec![
                            part(tys[1], sub, "the left part"),
                            part(tys[2], How::Mat, "the separator"),
                            part(tys[3], sub, "the right part"),
                        ],
                        out: if ctor { Out::Pair(0, 2) } else { Out::Whole },
                    },
                    "C09",
                );
            }
            "Enclose" => {
                return mk(
                    Proto::Seq {
                        parts: vec![
                            part(tys[2], How::Mat, "the opening pattern"),
                            part(tys[1], sub, "the enclosed part"),
                            part(tys[3], How::Mat, "the closing pattern"),
                        ],
                        out: if ctor { Out::Part(1) } else { Out::Whole },
                    },
                    "C09",
                );
            }
            "Prefix" if tys.len() == 3 => {
                return mk(
                    Proto::Seq {
                        parts: vec![part(tys[2], How::Mat, "the prefix"), part(tys[1], sub, "the prefixed part")],
                        out: if ctor { Out::Part(1) } else { Out::Whole },
                    },
                    "C09",
                );
            }
            "Suffix" => {
                return mk(
                    Proto::Seq {
                        parts: vec![part(tys[1], sub, "the suffixed part"), part(tys[2], How::Mat, "the suffix")],
                        out: if ctor { Out::Part(0) } else { Out::Whole },
                    },
                    "C09",
                );
            }
            "DynamicCtorThenBuilder" => {
                return if ctor {
                    mk(
                        Proto::Seq {
                            parts: vec![
                                part(tys[1], How::Cons, "the first part"),
                                part(tys[2], How::Fun, "the builder function"),
                                Part { who: Who::Made(tys[2]), how: How::Cons, nm: "the built parser" },
                            ],
                            out: Out::Pair(0, 2),
                        },
                        "C09",
                    )
                } else {
                    mk(Proto::Unsupported, "C21")
                };
            }
            "CtorOnlyFunAdapter" => {
                return if ctor { mk(Proto::Forward { how: How::Fun, lock: Lock::None }, "C11") } else { mk(Proto::Unsupported, "C21") };
            }
            "Or" if tys.len() == 3 && tys[0] != tys[1] && cx.field_ix(self_ty, "unit").is_none() => {
                return mk(
                    Proto::Choice {
                        alts: vec![part(tys[1], sub, "the left alternative"), part(tys[2], sub, "the right alternative")],
                        longest: false,
                    },
                    "C06",
                );
            }
            "LongestTokenMatch" => {
                return mk(
                    Proto::Choice {
                        alts: vec![part(tys[1], sub, "the left alternative"), part(tys[2], sub, "the right alternative")],
                        longest: true,
                    },
                    "C05",
                );
            }
            "Array" | "Slice" | "Vector" | "PairArray" | "PairSlice" | "PairVector" => {
                let Some(f) = flag("longest") else { return missing() };
                let err = match name.as_str() {
                    "Array" => "Array",
                    "Slice" => "Slice",
                    "Vector" => "Vector",
                    "PairArray" => "PairArray",
                    "PairSlice" => "PairSlice",
                    _ => "PairVector",
                };
                return mk(
                    Proto::Elems { elem: tys[0], pair: name.starts_with("Pair"), flag: Some(f), err, how: sub },
                    "C06",
                );
            }
            "Repeat" => {
                let Some((s, e)) = range_field() else { return missing() };
                return mk(
                    loopspec(tys[1], None, Bound2::Range((s, 0), true), Bound2::Range((e, 0), false), None, "Repeat", LoopOut::Coll),
                    "C07",
                );
            }
            "Repeat2" => {
                let k = consts(a);
                return mk(
                    loopspec(tys[1], None, Bound2::Val(k[0].clone()), Bound2::Val(k[1].clone()), None, "Repeat2", LoopOut::Array),
                    "C07",
                );
            }
            "Collect" => {
                let Some(m) = num("min") else { return missing() };
                return mk(loopspec(tys[1], None, Bound2::Val(m), Bound2::None, None, "Collect", LoopOut::Coll), "C07");
            }
            "Separate" => {
                let (Some(m), Some(s)) = (num("min"), flag("skip")) else { return missing() };
                return mk(
                    loopspec(tys[1], Some(tys[2]), Bound2::Val(m), Bound2::None, Some(s), "Separate", LoopOut::Coll),
                    "C08",
                );
            }
            "Separate2" => {
                let Some(s) = flag("skip") else { return missing() };
                let k = consts(a);
                return mk(
                    loopspec(
                        tys[1],
                        Some(tys[2]),
                        Bound2::Val(k[0].clone()),
                        Bound2::Val(k[1].clone()),
                        Some(s),
                        "Separate2",
                        LoopOut::Array,
                    ),
                    "C08",
                );
            }
            "SepCollect" => {
                let (Some(m), Some(s)) = (num("min"), flag("skip")) else { return missing() };
                return mk(
                    loopspec(tys[1], Some(tys[2]), Bound2::Val(m), Bound2::None, Some(s), "SepCollect", LoopOut::Coll),
                    "C08",
                );
            }
            "OptionPat" => return mk(Proto::Opt { part: part(tys[1], sub, "the optional pattern") }, "C10"),
            "IfThen" => {
                return mk(
                    Proto::IfThen {
                        first: part(tys[1], sub, "the first part"),
                        test: part(tys[2], How::Mat, "the test pattern"),
                        then: part(tys[3], sub, "the conditional part"),
                    },
                    "C10",
                );
            }
            "Branch" => {
                return mk(
                    Proto::Branch {
                        test: tys[2],
                        yes: part(tys[1], sub, "the true side"),
                        no: part(tys[3], sub, "the false side"),
                    },
                    "C10",
                );
            }
            "Map" => {
                return if ctor {
                    mk(
                        Proto::Seq {
                            parts: vec![part(tys[1], How::Cons, "the mapped part"), part(tys[2], How::Mapper, "the mapper")],
                            out: Out::Part(1),
                        },
                        "C13",
                    )
                } else {
                    mk(Proto::Seq { parts: vec![part(tys[1], How::Mat, "the mapped part")], out: Out::SpanOf(0) }, "C11")
                };
            }
            "Pattern" => {
                return if ctor {
                    mk(Proto::Leaf { who: Who::Ty(tys[1]) }, "C12")
                } else {
                    mk(Proto::Seq { parts: vec![part(tys[1], How::Mat, "the pattern")], out: Out::SpanOf(0) }, "C11")
                };
            }
            "Assert" if !ctor => {
                let Some(f) = flag("value") else { return missing() };
                return mk(Proto::Assert { pat: tys[0], flag: f }, "C04");
            }
            "AnchorStart" if !ctor => return mk(Proto::AnchorStart, "C04"),
            "AnchorEnd" if !ctor => return mk(Proto::AnchorEnd, "C04"),
            "Consume" if !ctor => return mk(Proto::Consume, "C19"),
            "ConsumeAll" if !ctor => return mk(Proto::ConsumeAll, "C19"),
            "EmptyRegex" if !ctor => return mk(Proto::Empty, "C19"),
            "FailRegex" if !ctor => return mk(Proto::Fail, "C19"),
            "Literal" if !ctor => return mk(Proto::Literal, "C19"),
            "Adapter" | "BoxAdapter" | "DynRefAdapter" | "RefAdapter" => {
                if !ctor {
                    return mk(Proto::Forward { how: How::Parse, lock: Lock::None }, "C11");
                }
                let in_ctor = match self_ty.kind() {
                    ty::Adt(d, _) => cx.fpath(d.did()).contains("ctor::"),
                    _ => false,
                };
                if in_ctor {
                    return mk(Proto::Forward { how: How::Cons, lock: Lock::None }, "C11");
                }
                return mk(Proto::Leaf { who: Who::Inner }, "C12");
            }
            "Once" | "Opt" | "Many0" | "Many1" | "NeureThen" | "Between" | "Times" if !ctor => {
                // units: the type parameters bound by Neu; condition: the last type parameter
                let cond = *tys.last().unwrap();
                let unit = |i: usize| tys[i];
                let one = Bound2::Val(Lin::k(1));
                let (units, lo, hi, err) = match name.as_str() {
                    "Once" => (vec![unit(1)], one.clone(), one, Some("Once")),
                    "Opt" => (vec![unit(1)], Bound2::None, one, None),
                    "Many0" => (vec![unit(1)], Bound2::None, Bound2::None, None),
                    "Many1" => (vec![unit(1)], one, Bound2::None, Some("Many1")),
                    "NeureThen" => (vec![unit(1), unit(2)], Bound2::Val(Lin::k(2)), Bound2::Val(Lin::k(2)), Some("NeureThen")),
                    "Between" => {
                        let k = consts(a);
                        (vec![unit(1)], Bound2::Val(k[0].clone()), Bound2::Val(k[1].clone()), Some("Between"))
                    }
                    _ => {
                        let Some((s, e)) = range_field() else { return missing() };
                        (vec![unit(1)], Bound2::Range((s, 0), true), Bound2::Range((e, 0), false), Some("Times"))
                    }
                };
                return mk(Proto::Neu(NeuSpec { units, cond, lo, hi, err }), "C16");
            }
            _ => {}
        }
        if ctor {
            return mk(Proto::Leaf { who: Who::Inner }, "C12");
        }
        return mk(Proto::Generic, "generic");
    }
    // foreign or built-in types
    let lock = match name.as_str() {
        "Option" => Lock::Option,
        "Mutex" => Lock::Mutex,
        "RefCell" => Lock::RefCell,
        "OnceLock" | "OnceCell" => Lock::Once,
        "Cell" => Lock::Cell,
        _ => Lock::None,
    };
    if lock != Lock::None {
        return mk(Proto::Forward { how: if ctor { How::Cons } else { How::Parse }, lock }, "C11");
    }
    match self_ty.kind() {
        ty::Adt(_, a) if matches!(name.as_str(), "Box" | "Rc" | "Arc") => {
            let inner = a.type_at(0);
            let dyn_regex = match inner.kind() {
                ty::Dynamic(p, _) => p.principal_def_id().is_some_and(|d| cx.tcx.item_name(d).as_str() == "Regex"),
                _ => false,
            };
            if ctor && dyn_regex {
                return mk(Proto::Leaf { who: Who::Inner }, "C12");
            }
            mk(Proto::Forward { how: if ctor { How::Cons } else { How::Parse }, lock: Lock::None }, "C11")
        }
        ty::Tuple(l) if l.is_empty() => mk(Proto::Empty, "C19"),
        ty::Param(_) => {
            if ctor {
                mk(Proto::Leaf { who: Who::Inner }, "C12")
            } else {
                mk(Proto::Forward { how: How::Parse, lock: Lock::None }, "C11")
            }
        }
        _ => {
            // text and byte literals
            if ctor { mk(Proto::Leaf { who: Who::Inner }, "C12") } else { mk(Proto::Literal, "C19") }
        }
    }
}

/// Build the specification for the analysed function and set up the registers of its monitor.
pub fn install<'tcx>(cx: &Cx<'tcx>, st: &mut State<'tcx>, did: DefId, name: &str) -> Result<Installed, String> {
    let Some(side) = side_of(cx, did) else { return Err("not a matcher".into()) };
    let Some(self_ty) = cx.self_ty.or_else(|| {
        // default method of a trait
        Some(cx.peel(cx.root_args[0]))
    }) else {
        return Err("no self type".into());
    };
    let arg = |i: u32| st.mem.get(&Root::Loc(0, i)).cloned().unwrap_or(Val::Undef);
    let me = cx.peel_val(st, &arg(1));
    let handler = if side == Side::Ctor { Some(cx.peel_val(st, &arg(3))) } else { None };
    let t = target(cx, side, self_ty, &me);
    let ci = match side {
        Side::Mat | Side::PolicyMat => Some(0),
        _ => ctx_arg(cx, &cx.root_args, side),
    };
    let mut ctx = None;
    let mut key = None;
    if let Some(i) = ci {
        let v = arg(i as u32 + 1);
        let ty = cx.root_args[i];
        if let (Ok(off), Ok(len)) = (cx.ctx_off(st, &v, ty), cx.ctx_len(st, &v, ty)) {
            st.facts.add(&Atom::Ge(len.sub(&off)), &cx.tm);
            // an input is a Rust object: its length is at most isize::MAX
            st.facts.add(&Atom::Ge(len.neg().addk(i64::MAX as i128)), &cx.tm);
            st.g.insert("off0", Val::Lin(off));
            key = cx.ctx_key(st, &v).ok();
            ctx = Some((v, ty));
        }
    }
    if !st.g.contains_key("off0") {
        st.g.insert("off0", Val::Lin(Lin::k(0)));
    }
    let err_ty = cx.is_result(cx.root_ret).map(|x| x.1);
    let desc = format!("{:?} {} {}", side, t.own, proto_name(&t.proto));
    let _ = name;
    if let Proto::Literal = t.proto {
        if let Some(l) = cx.text_len(st, &me) {
            st.g.insert("litlen", Val::Lin(l));
        }
    }
    let own = t.own;
    let mut props: Vec<&'static str> = vec![own, "C15", "C21"];
    match side {
        Side::Ctor => props.extend(["C02", "C12", "C13", "C14"]),
        Side::Regex => props.extend(["C01", "C03", "C14"]),
        _ => props.extend(["C01", "C03"]),
    }
    match &t.proto {
        Proto::Elems { .. } => props.extend(["C05", "C06"]),
        Proto::Neu(_) => props.push("C17"),
        Proto::Seq { .. } | Proto::Choice { .. } | Proto::Leaf { .. } | Proto::Loop(_) => props.push("C29"),
        _ => {}
    }
    let recursive = matches!(self_ty.kind(), ty::Adt(d, _) if recursion(cx).contains(&d.did()));
    if recursive {
        props.push("C22");
    }
    if matches!(t.proto, Proto::Unsupported) {
        props = vec![];
    }
    props.sort();
    props.dedup();
    // a choice starts every alternative afresh whatever the one before left behind
    cx.weak.set(matches!(own, "C04" | "C05" | "C06" | "C10"));
    let sp = Spec { proto: t.proto, side, ctx, key, me: Some(me), handler, err_ty, own: t.own, recursive, verdict: cx.root_ret.is_bool() };
    sp.start(cx, st).map_err(|_| "start".to_string())?;
    *cx.mon.borrow_mut() = Some(std::rc::Rc::new(sp));
    Ok(Installed { rule: desc, own, props })
}
/// the types a recursive pattern consists of: those the functions that tie the knot return
fn recursion<'tcx>(cx: &Cx<'tcx>) -> std::collections::HashSet<rustc_hir::def_id::DefId> {
    let tcx = cx.tcx;
    let mut out = std::collections::HashSet::new();
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) || !tcx.item_name(d).as_str().starts_with("rec_parser") {
            continue;
        }
        let ret = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output();
        for g in ret.walk() {
            if let Some(ty::Adt(a, _)) = g.as_type().map(|t| t.kind()) {
                out.insert(a.did());
            }
        }
    }
    out
}
/// the position had the failed parts left it as they found it
fn kept<'tcx>(cx: &Cx<'tcx>, l: &Lin) -> Lin {
    let mut r = Lin::k(l.c);
    for (s, k) in &l.t {
        let moved = matches!(cx.tm.kind(*s), crate::term::SymKind::Fresh(_, t) if &*t == "emv");
        if !moved {
            r = r.add(&Lin::s(*s).scale(*k));
        }
    }
    r
}
pub struct Installed {
    pub rule: String,
    pub own: &'static str,
    pub props: Vec<&'static str>,
}
pub fn proto_name(p: &Proto<'_>) -> String {
    let s = format!("{p:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
