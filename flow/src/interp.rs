//! Abstract interpreter over type-checked generic MIR.
use crate::term::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, BasicBlock, Body, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct BodyInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub heads: Vec<bool>,
    pub name: String,
    /// locals that are live at entry of each block (over-approximation), for dead-value pruning
    pub live: Vec<Vec<bool>>,
}

#[derive(Clone)]
pub enum FrameKind<'tcx> {
    Mir { body: Rc<BodyInfo<'tcx>>, bb: BasicBlock, ix: usize },
    /// drains an iterator into a collection: iterator in local 0, item in 1, collection in 2
    Drain { pc: u32, iter_ty: Ty<'tcx>, next_did: DefId },
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub kind: FrameKind<'tcx>,
    pub dest: Option<Ptr<'tcx>>,
    pub target: Option<BasicBlock>,
    /// what the function was given and how things stood when it was entered
    pub given: Option<Rc<(Vec<Val<'tcx>>, Turn<'tcx>)>>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct IterSt {
    pub ctx: Sym,
    pub base: Lin,
    pub pos: Lin,
    pub len: Lin,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub mem: BTreeMap<Root, Val<'tcx>>,
    pub facts: Facts,
    pub off: BTreeMap<Sym, Lin>,
    pub iters: BTreeMap<Sym, IterSt>,
    pub held: Vec<Sym>,
    /// closures that a reference to some function (`dyn Fn`) was made of
    pub dyns: Vec<(Ptr<'tcx>, Ty<'tcx>)>,
    /// what the context answered when it was asked to be read: asking again gives the same answer
    pub looks: Vec<(Sym, bool, Option<Val<'tcx>>)>,
    /// registers of the monitor
    pub g: BTreeMap<&'static str, Val<'tcx>>,
    pub trace: Vec<String>,
    pub tape: Vec<u32>,
    pub tpos: usize,
    pub steps: u32,
    /// what was decided before the first loop was entered
    pub part: Option<std::rc::Rc<str>>,
    /// the path went through a loop head where states were joined
    pub wid: bool,
    /// what happened so far that can make the next turn of a loop differ from the last one
    pub ticks: u32,
    /// the loop heads the path went through and the state it had there
    pub turns: Vec<(Rc<str>, Rc<Turn<'tcx>>)>,
}

/// the part of a state that decides how the execution goes on
pub struct Turn<'tcx> {
    pub mem: BTreeMap<Root, Val<'tcx>>,
    pub off: BTreeMap<Sym, Lin>,
    pub iters: BTreeMap<Sym, IterSt>,
    pub held: Vec<Sym>,
    pub ticks: u32,
}

pub enum Stop {
    Choose(u32),
    End,
    Incomplete(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EvK {
    Mat,
    Parse,
    Cons,
    Invoke,
    MapCall,
    CallFn,
    Next,
    IsMatch,
    MinLen,
    Check,
    Push,
    ArrSet,
    Lock,
    SetOff,
    Peek,
    Orig,
    Opaque,
    Panic,
    Load,
    ItNext,
    SubOv,
    AddOv,
    Conv,
    Assert,
    /// room is made for a number of elements
    Room,
}

#[derive(Clone, Debug)]
pub struct Ev<'tcx> {
    pub k: EvK,
    pub name: String,
    pub subj: Val<'tcx>,
    pub subj_ty: Option<Ty<'tcx>>,
    pub ctx: Option<Sym>,
    pub at: Option<Lin>,
    pub args: Vec<Val<'tcx>>,
    pub ok: Option<bool>,
    pub res: Val<'tcx>,
    pub loc: String,
}

impl<'tcx> Ev<'tcx> {
    pub fn new(k: EvK, name: &str) -> Self {
        Ev {
            k,
            name: name.to_string(),
            subj: Val::Undef,
            subj_ty: None,
            ctx: None,
            at: None,
            args: vec![],
            ok: None,
            res: Val::Undef,
            loc: String::new(),
        }
    }
}

pub trait Monitor<'tcx> {
    fn start(&self, _cx: &Cx<'tcx>, _st: &mut State<'tcx>) -> R<()> {
        Ok(())
    }
    fn event(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()>;
    fn exit(&self, cx: &Cx<'tcx>, st: &mut State<'tcx>, ret: &Val<'tcx>) -> R<()>;
    /// a loop head is reached
    fn head(&self, _cx: &Cx<'tcx>, _st: &mut State<'tcx>) {}
}

pub struct Head<'tcx> {
    pub st: State<'tcx>,
    pub phis: BTreeSet<Sym>,
    pub explored: u32,
    pub joins: u32,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub exits: usize,
    pub steps: usize,
    pub events: usize,
    pub inlined: BTreeSet<String>,
    pub opaque: BTreeSet<String>,
    pub heads: usize,
    pub passes: usize,
    pub panics: usize,
}

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub tm: Terms<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub root_did: DefId,
    pub root_args: Vec<Ty<'tcx>>,
    pub root_ret: Ty<'tcx>,
    pub bodies: RefCell<HashMap<Instance<'tcx>, Option<Rc<BodyInfo<'tcx>>>>>,
    pub stats: RefCell<Stats>,
    pub findings: RefCell<BTreeMap<(String, String), String>>,
    /// findings on paths without joined states: they hold whether or not a fixpoint is reached
    pub hard: RefCell<BTreeMap<(String, String), String>>,
    pub undecided: RefCell<BTreeSet<String>>,
    pub oblig: RefCell<BTreeMap<String, u64>>,
    pub inline_prims: bool,
    pub last_pass: RefCell<bool>,
    pub weak: std::cell::Cell<bool>,
    pub self_ty: Option<Ty<'tcx>>,
    /// inline every resolvable local callee, even when it is itself a matcher (default true)
    pub ctx_sym: RefCell<Option<Sym>>,
    pub mon: RefCell<Option<Rc<dyn Monitor<'tcx> + 'tcx>>>,
    span_fields: std::cell::OnceCell<(usize, usize)>,
}

impl<'tcx> Cx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, did: DefId) -> Self {
        let env = TypingEnv::post_analysis(tcx, did);
        let self_ty = tcx.opt_parent(did).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })).map(|p| {
            tcx.normalize_erasing_regions(env, tcx.type_of(p).instantiate_identity())
        });
        Cx {
            tcx,
            tm: Terms::new(),
            env,
            root_did: did,
            root_args: vec![],
            root_ret: tcx.types.unit,
            bodies: RefCell::new(HashMap::new()),
            stats: RefCell::new(Stats::default()),
            findings: RefCell::new(BTreeMap::new()),
            hard: RefCell::new(BTreeMap::new()),
            undecided: RefCell::new(BTreeSet::new()),
            oblig: RefCell::new(BTreeMap::new()),
            inline_prims: false,
            last_pass: RefCell::new(false),
            weak: Default::default(),
            self_ty,
            span_fields: std::cell::OnceCell::new(),
            ctx_sym: RefCell::new(None),
            mon: RefCell::new(None),
        }
    }

    /// Report a violation of rule `kind`; `what` must be stable across line moves.
    pub fn report(&self, st: &State<'tcx>, kind: &str, what: String) {
        if !*self.last_pass.borrow() {
            return;
        }
        let detail = format!("path: {} | facts: {}", st.trace.join(" ; "), st.facts.show(&self.tm));
        if let Some(Val::Str(f)) = st.g.get("unk") {
            // the path uses a library function the models do not cover: no verdict
            self.undecided.borrow_mut().insert(format!("{kind}: {what} (after the unmodelled call {f})"));
            return;
        }
        if !st.wid {
            self.hard.borrow_mut().entry((kind.to_string(), what.clone())).or_insert(detail.clone());
        }
        self.findings.borrow_mut().entry((kind.to_string(), what)).or_insert(detail);
    }
    pub fn obligation(&self, kind: &str) {
        if !*self.last_pass.borrow() {
            return;
        }
        *self.oblig.borrow_mut().entry(kind.to_string()).or_insert(0) += 1;
    }

    // ---- types -----------------------------------------------------------------------
    pub fn peel(&self, mut t: Ty<'tcx>) -> Ty<'tcx> {
        while let ty::Ref(_, x, _) = t.kind() {
            t = *x;
        }
        t
    }
    pub fn adt_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            _ => String::new(),
        }
    }
    pub fn is_result(&self, t: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        if let ty::Adt(d, a) = t.kind() {
            if self.tcx.is_diagnostic_item(rustc_span::sym::Result, d.did()) {
                return Some((a.type_at(0), a.type_at(1)));
            }
        }
        None
    }
    pub fn is_option(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        if let ty::Adt(d, a) = t.kind() {
            if self.tcx.is_diagnostic_item(rustc_span::sym::Option, d.did()) {
                return Some(a.type_at(0));
            }
        }
        None
    }
    pub fn is_local_adt(&self, t: Ty<'tcx>, name: &str) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if d.did().is_local() && self.tcx.item_name(d.did()).as_str() == name)
    }
    pub fn is_span(&self, t: Ty<'tcx>) -> bool {
        self.is_local_adt(t, "Span")
    }
    pub fn fpath(&self, did: DefId) -> String {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(did)
        ));
        // strip generic arguments
        let mut o = String::new();
        let mut d = 0;
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
                d += 1;
                i += 3;
                continue;
            }
            if b[i] == '<' && d > 0 {
                d += 1;
            } else if b[i] == '>' && d > 0 && (i == 0 || b[i - 1] != '-') {
                d -= 1;
                i += 1;
                continue;
            }
            if d == 0 {
                o.push(b[i]);
            }
            i += 1;
        }
        o
    }
    pub fn crate_mod(&self, did: DefId) -> (String, String) {
        let dp = self.tcx.def_path(did);
        let krate = self.tcx.crate_name(dp.krate).to_string();
        let m = dp
            .data
            .iter()
            .find_map(|d| match d.data {
                rustc_hir::definitions::DefPathData::TypeNs(s) => Some(s.to_string()),
                _ => None,
            })
            .unwrap_or_default();
        (krate, m)
    }
    pub fn subst_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    pub fn implements(&self, t: Ty<'tcx>, trait_name: &str) -> bool {
        // caller bounds only (type parameters)
        for c in self.env.param_env.caller_bounds() {
            if let Some(tp) = c.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                if tr.self_ty() == t && self.tcx.item_name(tr.def_id).as_str() == trait_name {
                    return true;
                }
            }
        }
        false
    }

    // ---- symbolic values -------------------------------------------------------------
    pub fn mk(&self, s: Sym, t: Ty<'tcx>) -> Val<'tcx> {
        match t.kind() {
            ty::Bool => Val::Bool(Cond::A(Atom::B(s))),
            ty::Uint(_) | ty::Char => {
                self.tm.set_nonneg(s);
                Val::Lin(Lin::s(s))
            }
            ty::Int(_) => Val::Lin(Lin::s(s)),
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                self.tm.set_ext_ty(s, *p);
                Val::Ref(Ptr::root(Root::Ext(s)))
            }
            ty::Tuple(l) if l.is_empty() => Val::unit(),
            ty::FnDef(..) => Val::Fun(t),
            ty::Tuple(l) => {
                let f = l
                    .iter()
                    .enumerate()
                    .map(|(i, ft)| {
                        let c = self.tm.app(&format!(".{i}"), vec![Val::Sym(s, t)], false);
                        self.mk(c, ft)
                    })
                    .collect();
                Val::agg(0, f)
            }
            _ => Val::Sym(s, t),
        }
    }
    pub fn fresh(&self, tag: &str, t: Ty<'tcx>) -> Val<'tcx> {
        let s = self.tm.fresh(tag, false);
        self.mk(s, t)
    }
    pub fn app(&self, head: &str, args: Vec<Val<'tcx>>, t: Ty<'tcx>) -> Val<'tcx> {
        let s = self.tm.app(head, args, false);
        self.mk(s, t)
    }
    pub fn ext_init(&self, s: Sym) -> Val<'tcx> {
        if let SymKind::App(h, a) = self.tm.kind(s) {
            if &*h == "constref" {
                return a[0].clone();
            }
        }
        let t = self.tm.ext_ty(s);
        // the pointee of a pointer symbol
        self.app("*", vec![Val::Sym(s, t)], t)
    }
    pub fn variant_fields(&self, t: Ty<'tcx>, v: u32) -> Vec<Ty<'tcx>> {
        match t.kind() {
            ty::Adt(d, a) => d.variants()[rustc_abi::VariantIdx::from_u32(v)]
                .fields
                .iter()
                .map(|f| self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, a)))
                .collect(),
            ty::Tuple(l) => l.iter().collect(),
            ty::Closure(_, a) => a.as_closure().upvar_tys().iter().collect(),
            _ => vec![],
        }
    }
    pub fn field_ix(&self, t: Ty<'tcx>, name: &str) -> Option<usize> {
        if let ty::Adt(d, _) = t.kind() {
            if d.is_struct() {
                return d.non_enum_variant().fields.iter().position(|f| f.name.as_str() == name);
            }
        }
        None
    }
    /// which fields of the local `Span` hold its start and its length: by name, by the accessor of that
    /// name, or in order of declaration
    pub fn span_ix(&self) -> (usize, usize) {
        *self.span_fields.get_or_init(|| {
            let items = self.tcx.hir_crate_items(());
            let span = items.definitions().find(|d| self.tcx.def_kind(*d) == DefKind::Struct && self.tcx.item_name(d.to_def_id()).as_str() == "Span");
            let Some(d) = span else { return (0, 1) };
            let fields = &self.tcx.adt_def(d.to_def_id()).non_enum_variant().fields;
            let named = |n: &str| fields.iter().position(|f| f.name.as_str() == n);
            let read = |n: &str| {
                let f = self
                    .tcx
                    .inherent_impls(d.to_def_id())
                    .iter()
                    .flat_map(|i| self.tcx.associated_item_def_ids(*i).iter())
                    .find(|x| self.tcx.def_kind(**x) == DefKind::AssocFn && self.tcx.item_name(**x).as_str() == n)?;
                let b = self.tcx.optimized_mir(*f);
                b.basic_blocks.iter().flat_map(|b| b.statements.iter()).find_map(|s| match &s.kind {
                    StatementKind::Assign(x) if x.0.local.as_usize() == 0 => match &x.1 {
                        Rvalue::Use(op, ..) => op.place()?.projection.iter().find_map(|p| match p {
                            ProjectionElem::Field(i, _) => Some(i.as_usize()),
                            _ => None,
                        }),
                        _ => None,
                    },
                    _ => None,
                })
            };
            match (named("beg").or_else(|| read("beg")), named("len").or_else(|| read("len"))) {
                (Some(b), Some(l)) if b != l => (b, l),
                _ => (0, 1),
            }
        })
    }
    pub fn explode(&self, s: Sym, t: Ty<'tcx>, v: u32) -> Val<'tcx> {
        let f = self
            .variant_fields(t, v)
            .into_iter()
            .enumerate()
            .map(|(i, ft)| self.proj_sym(s, t, v, i as u32, ft))
            .collect();
        Val::agg(v, f)
    }
    pub fn proj_sym(&self, s: Sym, t: Ty<'tcx>, v: u32, i: u32, ft: Ty<'tcx>) -> Val<'tcx> {
        let head = if v == 0 { format!(".{i}") } else { format!(".{v}.{i}") };
        self.app(&head, vec![Val::Sym(s, t)], ft)
    }
    pub fn project(&self, v: &Val<'tcx>, e: &PE<'tcx>) -> Val<'tcx> {
        match (v, e) {
            (Val::Agg(_, f), PE::Field(_, i, _)) => f.get(*i as usize).cloned().unwrap_or(Val::Undef),
            (Val::Agg(_, f), PE::Index(l, _)) => match l.is_const() {
                Some(k) if (k as usize) < f.len() => f[k as usize].clone(),
                _ => Val::Undef,
            },
            (Val::Sym(s, t), PE::Field(v, i, ft)) => self.proj_sym(*s, *t, *v, *i, *ft),
            (Val::Sym(..) | Val::Arr(..) | Val::Coll(..), PE::Index(l, ft)) => {
                let base = match v {
                    Val::Arr(s, _) | Val::Coll(s, _) => Val::Sym(*s, self.tcx.types.unit),
                    v => v.clone(),
                };
                // an element of a part is one of the whole
                if let Some((whole, b)) = self.part_of(&base) {
                    return self.project(&whole, &PE::Index(l.add(&b), *ft));
                }
                self.app("[]", vec![base, Val::Lin(l.clone())], *ft)
            }
            // pointer wrappers (Unique/NonNull/Box) are transparent
            (Val::Ref(_), PE::Field(..)) => v.clone(),
            // a range of newtype wrappers around integers
            (Val::Lin(_), PE::Field(..)) => v.clone(),
            _ => Val::Undef,
        }
    }
    /// the sequence `v` is a part of and where the part starts
    fn part_of(&self, v: &Val<'tcx>) -> Option<(Val<'tcx>, Lin)> {
        self.part_span(v).map(|x| (x.0, x.1))
    }
    pub fn part_span(&self, v: &Val<'tcx>) -> Option<(Val<'tcx>, Lin, Lin)> {
        let Val::Sym(s, _) = v else { return None };
        let SymKind::App(h, a) = self.tm.kind(*s) else { return None };
        let ("*", [Val::Sym(q, _)]) = (&*h, &a[..]) else { return None };
        self.part_bounds(*q)
    }
    /// the pointer `q` points to this part of this sequence
    pub fn part_bounds(&self, q: Sym) -> Option<(Val<'tcx>, Lin, Lin)> {
        let SymKind::App(h, a) = self.tm.kind(q) else { return None };
        match (&*h, &a[..]) {
            ("sub", [w, Val::Lin(b), Val::Lin(e)]) => Some((w.clone(), b.clone(), e.clone())),
            _ => None,
        }
    }
    pub fn load(&self, st: &State<'tcx>, p: &Ptr<'tcx>) -> Val<'tcx> {
        let mut v = match st.mem.get(&p.root) {
            Some(v) => v.clone(),
            None => match p.root {
                Root::Ext(s) => self.ext_init(s),
                Root::Loc(..) => Val::Undef,
            },
        };
        for e in &p.path {
            v = self.project(&v, e);
        }
        v
    }
    fn store_in(&self, base: Val<'tcx>, path: &[PE<'tcx>], val: Val<'tcx>) -> Val<'tcx> {
        let Some((e, rest)) = path.split_first() else { return val };
        match (base, e) {
            (Val::Agg(v, f), PE::Field(vv, i, _)) => {
                let mut f = (*f).clone();
                while f.len() <= *i as usize {
                    f.push(Val::Undef);
                }
                let old = f[*i as usize].clone();
                f[*i as usize] = self.store_in(old, rest, val);
                let _ = vv;
                Val::agg(v, f)
            }
            (Val::Agg(v, f), PE::Index(l, _)) => {
                let mut f = (*f).clone();
                if let Some(k) = l.is_const() {
                    if (k as usize) < f.len() {
                        let old = f[k as usize].clone();
                        f[k as usize] = self.store_in(old, rest, val);
                    }
                } else {
                    for x in f.iter_mut() {
                        *x = Val::Undef;
                    }
                }
                Val::agg(v, f)
            }
            (Val::Sym(s, t), PE::Field(v, ..)) => {
                let b = self.explode(s, t, *v);
                if b.fld(0).is_none() {
                    return Val::Sym(s, t);
                }
                self.store_in(b, path, val)
            }
            (Val::Undef, PE::Field(v, i, _)) => {
                let mut f = vec![Val::Undef; *i as usize + 1];
                f[*i as usize] = self.store_in(Val::Undef, rest, val);
                Val::agg(*v, f)
            }
            (b, _) => b, // element of a symbolic sequence: identity kept, content not tracked
        }
    }
    pub fn store(&self, st: &mut State<'tcx>, p: &Ptr<'tcx>, val: Val<'tcx>) {
        let base = if p.path.is_empty() {
            Val::Undef
        } else {
            self.load(st, &Ptr::root(p.root))
        };
        let n = self.store_in(base, &p.path, val);
        st.mem.insert(p.root, n);
    }

    // ---- control ---------------------------------------------------------------------
    pub fn choose(&self, st: &mut State<'tcx>, n: u32) -> R<u32> {
        if st.tpos < st.tape.len() {
            st.tpos += 1;
            Ok(st.tape[st.tpos - 1])
        } else {
            Err(Stop::Choose(n))
        }
    }
    pub fn decide(&self, st: &mut State<'tcx>, a: &Atom) -> R<bool> {
        if st.facts.entails(&self.tm, a) {
            return Ok(true);
        }
        let n = a.not();
        if st.facts.entails(&self.tm, &n) {
            return Ok(false);
        }
        if self.choose(st, 2)? == 0 {
            st.facts.add(a, &self.tm);
            Ok(true)
        } else {
            st.facts.add(&n, &self.tm);
            Ok(false)
        }
    }
    pub fn decide_c(&self, st: &mut State<'tcx>, c: &Cond) -> R<bool> {
        match c {
            Cond::K(b) => Ok(*b),
            Cond::A(a) => self.decide(st, a),
        }
    }
    pub fn to_cond(&self, v: &Val<'tcx>) -> Cond {
        match v {
            Val::Bool(c) => c.clone(),
            Val::Lin(l) => match l.is_const() {
                Some(k) => Cond::K(k != 0),
                None => Cond::A(Atom::Ne(l.clone())),
            },
            Val::Sym(s, _) => Cond::A(Atom::B(*s)),
            _ => Cond::A(Atom::B(self.tm.fresh("bool", false))),
        }
    }
    pub fn to_lin(&self, v: &Val<'tcx>) -> Lin {
        match v {
            Val::Lin(l) => l.clone(),
            Val::Sym(s, _) => Lin::s(*s),
            Val::Bool(Cond::K(b)) => Lin::k(*b as i128),
            Val::Bool(Cond::A(_)) => Lin::s(self.tm.app("int", vec![v.clone()], true)),
            Val::Agg(_, f) if f.len() == 1 => self.to_lin(&f[0]),
            Val::Undef => Lin::s(self.tm.fresh("int", false)),
            _ => Lin::s(self.tm.app("int", vec![v.clone()], false)),
        }
    }

    // ---- bodies ----------------------------------------------------------------------
    pub fn body(&self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.borrow().get(&inst) {
            return b.clone();
        }
        let tcx = self.tcx;
        let avail = match inst.def {
            ty::InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            ty::InstanceKind::Shim(_) => true,
            _ => false,
        };
        let r = if avail {
            let b = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, b.clone()),
            );
            let heads = loop_heads(&body);
            let live = liveness(&body);
            Some(Rc::new(BodyInfo { inst, heads, live, name: self.fpath(inst.def_id()), body }))
        } else {
            None
        };
        self.bodies.borrow_mut().insert(inst, r.clone());
        r
    }

    pub fn depth(&self, st: &State<'tcx>) -> u32 {
        st.frames.len() as u32 - 1
    }

    pub fn push_frame(
        &self,
        st: &mut State<'tcx>,
        body: Rc<BodyInfo<'tcx>>,
        args: Vec<Val<'tcx>>,
        dest: Option<Ptr<'tcx>>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        if st.frames.len() > 48 {
            return Err(Stop::Incomplete(format!("call depth at {}", body.name)));
        }
        let d = st.frames.len() as u32;
        let given: Vec<_> = args.iter().map(|a| self.as_given(st, a, 0)).collect();
        let ext = |st: &State<'tcx>| st.mem.iter().filter(|(r, _)| matches!(r, Root::Ext(_))).map(|(r, v)| (*r, v.clone())).collect::<BTreeMap<_, _>>();
        for f in &st.frames {
            let (FrameKind::Mir { body: b, .. }, Some(g)) = (&f.kind, &f.given) else { continue };
            if b.inst == body.inst && g.0 == given && g.1.ticks == st.ticks && g.1.off == st.off && g.1.held == st.held && g.1.iters == st.iters && g.1.mem == ext(st) {
                self.report(st, "C33", "calls itself with what it was given, for ever".into());
                return Err(Stop::End);
            }
        }
        let given = (d < 12).then(|| {
            Rc::new((given, Turn { mem: ext(st), off: st.off.clone(), iters: st.iters.clone(), held: st.held.clone(), ticks: st.ticks }))
        });
        for (i, a) in args.into_iter().enumerate() {
            st.mem.insert(Root::Loc(d, i as u32 + 1), a);
        }
        if d > 0 {
            self.stats.borrow_mut().inlined.insert(body.name.clone());
        }
        st.frames.push(Frame {
            kind: FrameKind::Mir { body, bb: mir::START_BLOCK, ix: 0 },
            dest,
            target,
            given,
        });
        Ok(())
    }
    /// an argument without the places of the caller it may stand in
    fn as_given(&self, st: &mut State<'tcx>, v: &Val<'tcx>, n: u32) -> Val<'tcx> {
        match v {
            Val::Ref(p) if n < 4 && matches!(p.root, Root::Loc(..)) => {
                let x = self.load(st, p);
                Val::agg(u32::MAX, vec![self.as_given(st, &x, n + 1)])
            }
            _ => v.clone(),
        }
    }

    // ---- places ----------------------------------------------------------------------
    pub fn place(&self, st: &mut State<'tcx>, body: &Body<'tcx>, pl: &Place<'tcx>) -> Ptr<'tcx> {
        let d = self.depth(st);
        let mut p = Ptr::root(Root::Loc(d, pl.local.as_u32()));
        let mut variant = 0u32;
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            let nty = pty.projection_ty(self.tcx, e);
            match e {
                ProjectionElem::Deref => {
                    let v = self.load(st, &p);
                    p = match v {
                        Val::Ref(q) => q,
                        Val::Sym(s, _) => {
                            self.tm.set_ext_ty(s, nty.ty);
                            Ptr::root(Root::Ext(s))
                        }
                        _ => {
                            let s = self.tm.fresh("ptr", false);
                            self.tm.set_ext_ty(s, nty.ty);
                            Ptr::root(Root::Ext(s))
                        }
                    };
                    variant = 0;
                }
                ProjectionElem::Field(f, ft) => {
                    p = p.field(variant, f.as_u32(), ft);
                    variant = 0;
                }
                ProjectionElem::Downcast(_, v) => variant = v.as_u32(),
                ProjectionElem::Index(l) => {
                    let i = self.load(st, &Ptr::root(Root::Loc(d, l.as_u32())));
                    let i = self.to_lin(&i);
                    p = p.index(i, nty.ty);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let l = if from_end {
                        let n = self.seq_len(st, &p);
                        n.addk(-(offset as i128))
                    } else {
                        Lin::k(offset as i128)
                    };
                    p = p.index(l, nty.ty);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.seq_len(st, &p);
                    let e = if from_end { n.addk(-(to as i128)) } else { Lin::k(to as i128) };
                    let refty = Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, nty.ty);
                    if let Val::Ref(q) = self.sub_slice(st, &p, &Lin::k(from as i128), &e, refty) {
                        p = q;
                    }
                }
                _ => {}
            }
            pty = nty;
        }
        p
    }
    pub fn const_lin(&self, c: ty::Const<'tcx>) -> Lin {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => Lin::k(n as i128),
            None => Lin::s(self.tm.app(&format!("const {c}"), vec![], true)),
        }
    }
    /// length of the sequence stored at `p`
    pub fn seq_len(&self, st: &State<'tcx>, p: &Ptr<'tcx>) -> Lin {
        match self.load(st, p) {
            Val::Arr(_, l) | Val::Coll(_, l) => l,
            Val::Sym(s, t) => {
                if let ty::Array(_, n) = t.kind() {
                    return self.const_lin(*n);
                }
                if let ty::Adt(_, a) = t.kind() {
                    let inner = match self.adt_name(t).as_str() {
                        "Vec" => Some(Ty::new_slice(self.tcx, a.type_at(0))),
                        "String" => Some(self.tcx.types.str_),
                        _ => None,
                    };
                    if let Some(i) = inner {
                        if let Val::Ref(q) = self.app("deref", vec![Val::Sym(s, t)], Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, i)) {
                            if !st.mem.contains_key(&q.root) {
                                return self.seq_len(st, &q);
                            }
                        }
                    }
                }
                if let Some((_, b, e)) = self.part_span(&Val::Sym(s, t)) {
                    return e.sub(&b);
                }
                Lin::s(self.tm.app("len", vec![Val::Sym(s, t)], true))
            }
            Val::Agg(_, f) => Lin::k(f.len() as i128),
            Val::Str(s) => Lin::k(s.len() as i128),
            v => Lin::s(self.tm.app("len", vec![v], true)),
        }
    }

    pub fn operand(&self, st: &mut State<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> Val<'tcx> {
        match op {
            Operand::Copy(p) => {
                let p = self.place(st, body, p);
                self.load(st, &p)
            }
            Operand::Move(p) => {
                let q = self.place(st, body, p);
                let v = self.load(st, &q);
                if p.projection.is_empty() {
                    st.mem.remove(&q.root);
                }
                v
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => Val::bool(false),
        }
    }
    pub fn constant(&self, c: &mir::Const<'tcx>) -> Val<'tcx> {
        let t = c.ty();
        match t.kind() {
            ty::FnDef(..) => return Val::Fun(t),
            ty::Tuple(l) if l.is_empty() => return Val::unit(),
            ty::Closure(_, a) if a.as_closure().upvar_tys().is_empty() => return Val::agg(0, vec![]),
            _ => {}
        }
        if let mir::Const::Ty(_, k) = c {
            if t == self.tcx.types.usize {
                return Val::Lin(self.const_lin(*k));
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(s) = c.try_eval_scalar_int(self.tcx, self.env) {
                if t.is_bool() {
                    return Val::bool(s.to_bits_unchecked() != 0);
                }
                if let ty::Int(_) = t.kind() {
                    return Val::k(s.to_int(s.size()));
                }
                return Val::k(s.to_bits_unchecked() as i128);
            }
        }
        if let ty::Adt(_, a) = t.kind() {
            if self.adt_name(t) == "NonZero" {
                if let (Some(s), Some(i)) = (c.try_eval_scalar_int(self.tcx, self.env), a.types().next()) {
                    return Val::k(sign_of(s.to_bits_unchecked(), i));
                }
            }
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_struct() && d.non_enum_variant().fields.is_empty() {
                return Val::agg(0, vec![]);
            }
            if d.is_enum() && !matches!(c, mir::Const::Unevaluated(..)) {
                // constant of a fieldless enum
                if let Some(s) = c.try_eval_scalar_int(self.tcx, self.env) {
                    let bits = s.to_bits_unchecked();
                    for (v, dd) in d.discriminants(self.tcx) {
                        if dd.val == bits && d.variant(v).fields.is_empty() {
                            return Val::agg(v.as_u32(), vec![]);
                        }
                    }
                }
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let mir::Const::Val(cv, ty) = c {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let _ = ty;
                        return Val::Str(String::from_utf8_lossy(b).as_ref().into());
                    }
                }
            }
        }
        if let Some(v) = self.const_value(c, 0) {
            return v;
        }
        let name = format!("const {c}");
        self.app(&name, vec![], t)
    }
    /// value of a constant whose initialiser is a plain aggregate (enum variants, references to them)
    fn const_value(&self, c: &mir::Const<'tcx>, depth: u32) -> Option<Val<'tcx>> {
        if depth > 4 {
            return None;
        }
        let tcx = self.tcx;
        if let mir::Const::Unevaluated(u, _) = c {
            let body = match u.promoted {
                Some(p) => tcx.promoted_mir(u.def).get(p)?.clone(),
                None => {
                    if !matches!(tcx.def_kind(u.def), DefKind::AnonConst | DefKind::Const { .. } | DefKind::AssocConst { .. })
                        || !u.def.is_local()
                    {
                        return None;
                    }
                    tcx.mir_for_ctfe(u.def).clone()
                }
            };
            let body = ty::EarlyBinder::bind(tcx, body).instantiate(tcx, u.args).skip_norm_wip();
            return self.const_body(&body, vec![], depth);
        }
        let mir::Const::Val(cv, t) = c else { return None };
        self.const_destructure(*cv, *t, depth)
    }
    fn const_destructure(&self, cv: mir::ConstValue, t: Ty<'tcx>, depth: u32) -> Option<Val<'tcx>> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, _) if d.is_enum() || d.is_struct() => {}
            _ => return None,
        }
        if ty::TypeVisitableExt::has_infer(&t) {
            return None;
        }
        if ty::TypeVisitableExt::has_param(&t) {
            return self.const_variant(cv, t);
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
        let v = d.variant?.as_u32();
        let mut f = vec![];
        for (x, xt) in d.fields.iter() {
            f.push(self.constant_at(&mir::Const::Val(*x, *xt), depth + 1));
        }
        Some(Val::agg(v, f))
    }
    /// a fieldless variant of a generic enum
    fn const_variant(&self, cv: mir::ConstValue, t: Ty<'tcx>) -> Option<Val<'tcx>> {
        let tcx = self.tcx;
        let ty::Adt(d, _) = t.kind() else { return None };
        let mir::ConstValue::Indirect { alloc_id, offset } = cv else { return None };
        let l = tcx.layout_of(self.env.as_query_input(t)).ok()?;
        let rustc_abi::Variants::Multiple { tag, tag_encoding: rustc_abi::TagEncoding::Direct, tag_field, .. } = &l.variants else { return None };
        let at = offset + l.fields.offset(tag_field.as_usize());
        let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
        let n = tag.size(&tcx).bytes_usize();
        let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(at.bytes_usize()..at.bytes_usize() + n);
        let bits = b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128);
        for (v, dd) in d.discriminants(tcx) {
            if dd.val == bits && d.variant(v).fields.is_empty() {
                return Some(Val::agg(v.as_u32(), vec![]));
            }
        }
        None
    }
    /// the discriminant of a variant, read as its type says
    pub fn discr_of(&self, t: Ty<'tcx>, v: u32) -> i128 {
        match t.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(v)) {
            Some(d) => sign_of(d.val, d.ty),
            None => v as i128,
        }
    }
    /// does some variant have a discriminant below zero?
    fn signed_discr(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) if d.is_enum() => d.discriminants(self.tcx).any(|(_, d)| sign_of(d.val, d.ty) < 0),
            _ => false,
        }
    }
    fn constant_at(&self, c: &mir::Const<'tcx>, depth: u32) -> Val<'tcx> {
        if depth > 4 {
            let name = format!("const {c}");
            return self.app(&name, vec![], c.ty());
        }
        self.constant(c)
    }
    /// straight-line constant initialisers
    fn const_body(&self, b: &Body<'tcx>, args: Vec<Val<'tcx>>, depth: u32) -> Option<Val<'tcx>> {
        let mut locals: HashMap<u32, Val<'tcx>> = args.into_iter().enumerate().map(|(i, v)| (i as u32 + 1, v)).collect();
        let mut bb = mir::START_BLOCK;
        let tcx = self.tcx;
        for _ in 0..8 {
            let data = &b.basic_blocks[bb];
            for s in &data.statements {
                let StatementKind::Assign(a) = &s.kind else { continue };
                if !a.0.projection.is_empty() {
                    return None;
                }
                let get = |o: &Operand<'tcx>| -> Option<Val<'tcx>> {
                    match o {
                        Operand::Constant(c) => match self.const_value(&c.const_, depth + 1) {
                            Some(v) => Some(v),
                            None if !matches!(c.const_, mir::Const::Unevaluated(..)) => Some(self.constant(&c.const_)),
                            None => None,
                        },
                        Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => locals.get(&p.local.as_u32()).cloned(),
                        _ => None,
                    }
                };
                let v = match &a.1 {
                    Rvalue::Use(o, _) => get(o)?,
                    Rvalue::Ref(_, _, p) if p.projection.is_empty() => {
                        let v = locals.get(&p.local.as_u32())?.clone();
                        let s = self.tm.app("constref", vec![v], false);
                        self.tm.set_ext_ty(s, b.local_decls[p.local].ty);
                        Val::Ref(Ptr::root(Root::Ext(s)))
                    }
                    Rvalue::Ref(_, _, p) if p.projection.len() == 1 && matches!(p.projection[0], mir::ProjectionElem::Deref) => {
                        locals.get(&p.local.as_u32())?.clone()
                    }
                    Rvalue::Aggregate(k, ops) => {
                        let f: Option<Vec<_>> = ops.iter().map(get).collect();
                        match &**k {
                            mir::AggregateKind::Adt(_, v, _, _, _) => Val::agg(v.as_u32(), f?),
                            mir::AggregateKind::Tuple => Val::agg(0, f?),
                            _ => return None,
                        }
                    }
                    _ => return None,
                };
                locals.insert(a.0.local.as_u32(), v);
            }
            match &data.terminator().kind {
                TerminatorKind::Return => return locals.get(&0).cloned(),
                TerminatorKind::Goto { target, .. } => bb = *target,
                // `const fn`s that only put their arguments together
                TerminatorKind::Call { func, args, destination, target: Some(t), .. } if depth < 4 && destination.projection.is_empty() => {
                    let (did, targs) = func.const_fn_def()?;
                    if tcx.trait_of_assoc(did).is_some() || !tcx.is_const_fn(did) || !tcx.is_mir_available(did) {
                        return None;
                    }
                    let mut vs = vec![];
                    for a in args {
                        vs.push(match &a.node {
                            Operand::Constant(c) => self.constant(&c.const_),
                            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => locals.get(&p.local.as_u32())?.clone(),
                            _ => return None,
                        });
                    }
                    let cb = tcx.optimized_mir(did).clone();
                    let cb = ty::EarlyBinder::bind(tcx, cb).instantiate(tcx, targs).skip_norm_wip();
                    let v = self.const_body(&cb, vs, depth + 1)?;
                    locals.insert(destination.local.as_u32(), v);
                    bb = *t;
                }
                _ => return None,
            }
        }
        None
    }

    pub fn rvalue(
        &self,
        st: &mut State<'tcx>,
        body: &Body<'tcx>,
        rv: &Rvalue<'tcx>,
        dty: Ty<'tcx>,
        loc: &str,
    ) -> R<Val<'tcx>> {
        Ok(match rv {
            Rvalue::Use(op, _) => self.operand(st, body, op),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, body, op);
                let n = self.const_lin(*n);
                if let Some(k) = n.is_const() {
                    if k <= 4 {
                        return Ok(Val::agg(0, vec![v; k as usize]));
                    }
                }
                Val::Arr(self.tm.app("arr", vec![v, Val::Lin(n.clone())], false), n)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                Val::Ref(self.place(st, body, p))
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(st, body, p);
                self.load(st, &p)
            }
            Rvalue::Cast(kind, op, t) => {
                let v = self.operand(st, body, op);
                if let (mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), ty::Ref(_, x, _), Val::Ref(p)) = (kind, t.kind(), &v)
                    && matches!(x.kind(), ty::Dynamic(..))
                    && let ty::Ref(_, from, _) = op.ty(&body.local_decls, self.tcx).kind()
                    && matches!(from.kind(), ty::Closure(..))
                {
                    let from = self.subst_ty(*from);
                    st.dyns.retain(|d| d.0 != *p);
                    st.dyns.push((p.clone(), from));
                }
                if t.is_integral() && op.ty(&body.local_decls, self.tcx).is_bool() {
                    // counting by conditions: which one holds matters to the sum
                    let c = self.to_cond(&v);
                    return Ok(Val::k(self.decide_c(st, &c)? as i128));
                }
                if let Some(x) = self.is_option(*t) {
                    // the null niche: `NonZero::new`
                    if self.adt_name(x) == "NonZero" && matches!(kind, mir::CastKind::Transmute) && !matches!(v, Val::Agg(..)) {
                        let l = self.to_lin(&v);
                        return Ok(if self.decide(st, &Atom::Eq(l))? { self.none() } else { self.some(v) });
                    }
                }
                if t.is_integral() && matches!(kind, mir::CastKind::Transmute) && self.adt_name(op.ty(&body.local_decls, self.tcx)) == "NonZero" {
                    return Ok(match v {
                        Val::Agg(_, f) if f.len() == 1 => f[0].clone(),
                        v => v,
                    });
                }
                match (&v, kind) {
                    (Val::Lin(l), _) if t.is_integral() || t.is_char() => {
                        let from = op.ty(&body.local_decls, self.tcx);
                        if l.is_const().is_some_and(|k| int_fits(k, *t)) || widens(from, *t) {
                            v
                        } else {
                            let h = format!("cast {t}");
                            self.app(&h, vec![v], *t)
                        }
                    }
                    (Val::Agg(vr, _), mir::CastKind::IntToInt) => {
                        let from = op.ty(&body.local_decls, self.tcx);
                        let k = self.discr_of(from, *vr);
                        if int_fits(k, *t) {
                            Val::k(k)
                        } else {
                            let h = format!("cast {t}");
                            self.app(&h, vec![v], *t)
                        }
                    }
                    (Val::Ref(_), _) => v,
                    (Val::Agg(_, f), mir::CastKind::Transmute) if f.len() == 1 => f[0].clone(),
                    (Val::Fun(_), _) => v,
                    (_, mir::CastKind::PointerCoercion(..)) => v,
                    _ => {
                        let h = format!("cast {t}");
                        self.app(&h, vec![v], *t)
                    }
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(st, body, &ab.0);
                let b = self.operand(st, body, &ab.1);
                let uns = {
                    let t = ab.0.ty(&body.local_decls, self.tcx);
                    matches!(t.kind(), ty::Uint(_))
                };
                self.binop(st, *op, a, b, uns, dty, loc)?
            }
            Rvalue::UnaryOp(op, a) => {
                let v = self.operand(st, body, a);
                match op {
                    mir::UnOp::Not => match &v {
                        Val::Bool(c) => Val::Bool(c.not()),
                        _ => self.app("not", vec![v], dty),
                    },
                    mir::UnOp::Neg => Val::Lin(self.to_lin(&v).neg()),
                    mir::UnOp::PtrMetadata => match &v {
                        Val::Ref(p) => Val::Lin(self.seq_len(st, p)),
                        Val::Str(s) => Val::k(s.len() as i128),
                        _ => self.app("meta", vec![v], dty),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let q = self.place(st, body, p);
                match self.load(st, &q) {
                    Val::Agg(v, _) => Val::k(self.discr_of(t, v)),
                    Val::Undef => self.fresh("discr", self.tcx.types.usize),
                    v => {
                        let s = self.tm.app("discr", vec![v], !matches!(dty.kind(), ty::Int(_)) || !self.signed_discr(t));
                        Val::Lin(Lin::s(s))
                    }
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<_> = ops.iter().map(|o| self.operand(st, body, o)).collect();
                match &**k {
                    mir::AggregateKind::Adt(_, v, _, _, _) => Val::agg(v.as_u32(), f),
                    mir::AggregateKind::RawPtr(..) => f[0].clone(),
                    _ => Val::agg(0, f),
                }
            }
            Rvalue::ThreadLocalRef(_) => self.fresh("tls", dty),
            Rvalue::WrapUnsafeBinder(op, _) => self.operand(st, body, op),
        })
    }

    pub fn binop(
        &self,
        st: &mut State<'tcx>,
        op: mir::BinOp,
        a: Val<'tcx>,
        b: Val<'tcx>,
        uns: bool,
        dty: Ty<'tcx>,
        loc: &str,
    ) -> R<Val<'tcx>> {
        use mir::BinOp::*;
        if let (Val::Bool(x), Val::Bool(y)) = (&a, &b) {
            return Ok(match op {
                Eq | Ne | BitXor | BitAnd | BitOr => {
                    let (x, y) = (x.clone(), y.clone());
                    let bx = self.decide_c(st, &x)?;
                    Val::Bool(match (op, bx) {
                        (Eq, true) | (Ne, false) | (BitXor, false) => y,
                        (Eq, false) | (Ne, true) | (BitXor, true) => y.not(),
                        (BitAnd, true) | (BitOr, false) => y,
                        (BitAnd, false) => Cond::K(false),
                        (BitOr, true) => Cond::K(true),
                        _ => unreachable!(),
                    })
                }
                _ => self.app(&format!("{op:?}"), vec![a, b], dty),
            });
        }
        let la = self.to_lin(&a);
        let lb = self.to_lin(&b);
        let d = la.sub(&lb);
        let cmp = |at: Atom| -> Val<'tcx> {
            if st.facts.entails(&self.tm, &at) {
                Val::bool(true)
            } else if st.facts.entails(&self.tm, &at.not()) {
                Val::bool(false)
            } else {
                Val::Bool(Cond::A(at))
            }
        };
        Ok(match op {
            Eq => cmp(Atom::Eq(d)),
            Ne => cmp(Atom::Ne(d)),
            Lt => cmp(Atom::Ge(d.neg().addk(-1))),
            Le => cmp(Atom::Ge(d.neg())),
            Ge => cmp(Atom::Ge(d)),
            Gt => cmp(Atom::Ge(d.addk(-1))),
            Add | AddUnchecked => Val::Lin(la.add(&lb)),
            Sub | SubUnchecked => Val::Lin(d),
            AddWithOverflow => {
                if la.is_const().is_none() && lb.is_const().is_none() {
                    let mut e = Ev::new(EvK::AddOv, "add");
                    e.args = vec![Val::Lin(la.clone()), Val::Lin(lb.clone())];
                    e.loc = loc.into();
                    self.emit(st, e)?;
                }
                let none = |l: &Lin| l.is_const() == Some(0);
                let ov = uns && !none(&la) && !none(&lb) && (self.given_number(st, &la) || self.given_number(st, &lb));
                let ov = if ov { self.maybe("add-overflow", &la, &lb) } else { Cond::K(false) };
                Val::agg(0, vec![Val::Lin(la.add(&lb)), Val::Bool(ov)])
            }
            SubWithOverflow => {
                let ov = if uns { Cond::A(Atom::Ge(d.clone()).not()) } else { Cond::K(false) };
                Val::agg(0, vec![Val::Lin(d), Val::Bool(ov)])
            }
            Mul | MulUnchecked | MulWithOverflow => {
                let r = self.mul(&la, &lb);
                if op == MulWithOverflow {
                    let small = |l: &Lin| l.is_const().is_some_and(|k| (0..=1).contains(&k));
                    let ov = uns && !small(&la) && !small(&lb) && (self.given_number(st, &la) || self.given_number(st, &lb));
                    let ov = if ov { self.maybe("mul-overflow", &la, &lb) } else { Cond::K(false) };
                    Val::agg(0, vec![Val::Lin(r), Val::Bool(ov)])
                } else {
                    Val::Lin(r)
                }
            }
            Cmp => {
                // three-way: Less = variant 0, Equal = 1, Greater = 2
                if self.decide(st, &Atom::Ge(d.neg().addk(-1)))? {
                    Val::agg(0, vec![])
                } else if self.decide(st, &Atom::Eq(d))? {
                    Val::agg(1, vec![])
                } else {
                    Val::agg(2, vec![])
                }
            }
            _ => {
                let s = self.tm.app(&format!("{op:?}"), vec![Val::Lin(la), Val::Lin(lb)], uns);
                self.mk(s, dty)
            }
        })
    }

    /// What was handed over by shared reference still is what it was.
    pub fn untouched(&self, st: &mut State<'tcx>) {
        let shared = self.root_args.first().is_some_and(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_not()));
        let item = self.tcx.opt_item_name(self.root_did);
        if !shared || !matches!(item.as_ref().map_or("", |x| x.as_str()), "try_parse" | "parse" | "construct" | "is_match" | "min_length" | "check" | "map_to" | "map" | "map_snd") {
            return;
        }
        let counting = self.self_ty.is_some_and(|t| self.adt_name(t).starts_with("Prefix"));
        if counting {
            return;
        }
        for (r, v) in st.mem.clone() {
            if let Root::Ext(s) = r
                && self.of_first(s)
            {
                self.obligation("untouched");
                let was = self.ext_init(s);
                if v != was && !matches!(v, Val::Undef) {
                    let d = format!("{} becomes {}", self.tm.show(&was), self.tm.show(&v));
                    self.report(st, "C27", format!("the pattern is changed: {d}"));
                }
            }
        }
    }
    fn of_first(&self, s: Sym) -> bool {
        match self.tm.kind(s) {
            SymKind::Arg(1) => true,
            SymKind::App(h, a) if h.starts_with('.') || &*h == "*" => matches!(a.first(), Some(Val::Sym(s, _)) if self.of_first(*s)),
            _ => false,
        }
    }
    /// The number is one the user chose for the pattern that is run (a bound, a count), and nothing on
    /// the path says that it is not huge.
    pub fn given_number(&self, st: &State<'tcx>, l: &Lin) -> bool {
        if !matches!(self.tcx.opt_item_name(self.root_did).as_ref().map_or("", |x| x.as_str()), "try_parse" | "parse" | "construct" | "is_match" | "min_length") {
            return false;
        }
        let l = st.facts.reduce(l);
        l.t.iter().any(|(s, k)| *k > 0 && self.given(*s) && !st.facts.limited(*s))
    }
    fn given(&self, s: Sym) -> bool {
        match self.tm.kind(s) {
            SymKind::App(h, _) if h.starts_with("const ") => true,
            SymKind::App(h, a) if h.starts_with('.') || &*h == "*" => match a.first() {
                Some(Val::Sym(s, _)) => matches!(self.tm.kind(*s), SymKind::Arg(1)) || self.given(*s),
                _ => false,
            },
            SymKind::App(h, a) if &*h == "ssub" => matches!(a.first(), Some(Val::Lin(l)) if l.as_sym().is_some_and(|s| self.given(s))),
            _ => false,
        }
    }
    fn maybe(&self, what: &str, a: &Lin, b: &Lin) -> Cond {
        Cond::A(Atom::B(self.tm.app(what, vec![Val::Lin(a.clone()), Val::Lin(b.clone())], false)))
    }

    // ---- events ----------------------------------------------------------------------
    pub fn emit(&self, st: &mut State<'tcx>, mut ev: Ev<'tcx>) -> R<()> {
        // what stands behind a reference to some pattern
        if let (Some(t), Val::Sym(_, is)) = (ev.subj_ty, &ev.subj)
            && matches!(t.kind(), ty::Dynamic(..))
            && matches!(is.kind(), ty::Param(_) | ty::Adt(..))
        {
            ev.subj_ty = Some(*is);
        }
        self.stats.borrow_mut().events += 1;
        if !matches!(ev.k, EvK::Opaque | EvK::Load | EvK::AddOv | EvK::SetOff | EvK::Conv | EvK::Room) {
            let subj = if let Val::Undef = ev.subj { String::new() } else { self.tm.show(&ev.subj) };
            let mut s = format!("{}({})", ev.name, subj);
            if let Some(a) = &ev.at {
                s.push_str(&format!("@{}", self.tm.show_lin(a)));
            }
            if let Some(ok) = ev.ok {
                s.push_str(if ok { ":ok" } else { ":no" });
            }
            st.trace.push(s);
        }
        // asked again, these give the same answer
        let again = match ev.k {
            EvK::Next | EvK::ItNext | EvK::Mat | EvK::Parse => ev.ok == Some(false),
            EvK::IsMatch | EvK::MinLen | EvK::Peek | EvK::Orig | EvK::SetOff | EvK::SubOv | EvK::AddOv | EvK::Conv => true,
            _ => false,
        };
        if !again {
            st.ticks += 1;
        }
        self.monitor(st, &ev)
    }
    fn monitor(&self, st: &mut State<'tcx>, ev: &Ev<'tcx>) -> R<()> {
        let m = self.mon.borrow().clone();
        match m {
            Some(m) => m.event(self, st, ev),
            None => Ok(()),
        }
    }

    // ---- stepping --------------------------------------------------------------------
    /// One statement or terminator of the top frame.
    pub fn step(&self, st: &mut State<'tcx>) -> R<()> {
        self.stats.borrow_mut().steps += 1;
        let fi = st.frames.len() - 1;
        match st.frames[fi].kind.clone() {
            FrameKind::Mir { body, bb, ix } => {
                let b = &body.body;
                let data = &b.basic_blocks[bb];
                if ix < data.statements.len() {
                    let s = &data.statements[ix];
                    let loc = self.loc(s.source_info.span);
                    self.statement(st, b, s, &loc)?;
                    if let FrameKind::Mir { ix, .. } = &mut st.frames[fi].kind {
                        *ix += 1;
                    }
                    Ok(())
                } else {
                    let t = data.terminator();
                    let loc = self.loc(t.source_info.span);
                    self.terminator(st, &body, t, &loc)
                }
            }
            FrameKind::Drain { pc, iter_ty, next_did } => self.drain_step(st, pc, iter_ty, next_did),
        }
    }
    pub fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn statement(&self, st: &mut State<'tcx>, b: &Body<'tcx>, s: &mir::Statement<'tcx>, loc: &str) -> R<()> {
        match &s.kind {
            StatementKind::Assign(pr) => {
                let dty = pr.0.ty(&b.local_decls, self.tcx).ty;
                let v = self.rvalue(st, b, &pr.1, dty, loc)?;
                let p = self.place(st, b, &pr.0);
                self.assign(st, &p, v)?;
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, b, place);
                let v = self.load(st, &p);
                let f = if let Val::Agg(_, f) = v { (*f).clone() } else { vec![] };
                self.store(st, &p, Val::agg(variant_index.as_u32(), f));
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                let d = self.depth(st);
                st.mem.remove(&Root::Loc(d, l.as_u32()));
            }
            StatementKind::Intrinsic(i) => {
                if let mir::NonDivergingIntrinsic::Assume(op) = &**i {
                    let v = self.operand(st, b, op);
                    if let Cond::A(a) = self.to_cond(&v) {
                        st.facts.add(&a, &self.tm);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn assign(&self, st: &mut State<'tcx>, p: &Ptr<'tcx>, v: Val<'tcx>) -> R<()> {
        if let Some(PE::Index(ix, _)) = p.path.last() {
            let mut q = p.clone();
            q.path.pop();
            let base = self.load(st, &q);
            if let Val::Arr(..) | Val::Sym(..) = base {
                let mut e = Ev::new(EvK::ArrSet, "set");
                e.subj = base;
                e.args = vec![Val::Lin(ix.clone()), v.clone()];
                self.emit(st, e)?;
            }
        }
        self.store(st, p, v);
        Ok(())
    }
    pub fn goto(&self, st: &mut State<'tcx>, t: BasicBlock) {
        let fi = st.frames.len() - 1;
        if let FrameKind::Mir { bb, ix, .. } = &mut st.frames[fi].kind {
            *bb = t;
            *ix = 0;
        }
    }
    pub fn do_return(&self, st: &mut State<'tcx>, v: Val<'tcx>) -> R<()> {
        let d = self.depth(st);
        let f = st.frames.pop().unwrap();
        let dead: Vec<Root> = st.mem.keys().filter(|r| matches!(r, Root::Loc(x, _) if *x == d)).cloned().collect();
        for r in dead {
            st.mem.remove(&r);
        }
        if st.frames.is_empty() {
            st.mem.insert(Root::Loc(0, 0), v);
            return Ok(());
        }
        if let Some(p) = f.dest {
            self.assign(st, &p, v)?;
        }
        match f.target {
            Some(t) => {
                self.goto(st, t);
            }
            None => {
                if matches!(st.frames.last().unwrap().kind, FrameKind::Mir { .. }) {
                    return Err(Stop::End);
                }
            }
        }
        Ok(())
    }
    fn terminator(&self, st: &mut State<'tcx>, bi: &Rc<BodyInfo<'tcx>>, t: &mir::Terminator<'tcx>, loc: &str) -> R<()> {
        let b = &bi.body;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, b, discr);
                match &v {
                    Val::Bool(c) => {
                        let r = self.decide_c(st, c)?;
                        let t = targets.target_for_value(r as u128);
                        self.goto(st, t);
                    }
                    _ => {
                        let l = self.to_lin(&v);
                        let vt = discr.ty(&b.local_decls, self.tcx);
                        let mut done = false;
                        for (val, t) in targets.iter() {
                            if self.decide(st, &Atom::Eq(l.addk(-sign_of(val, vt))))? {
                                self.goto(st, t);
                                done = true;
                                break;
                            }
                        }
                        if !done {
                            self.goto(st, targets.otherwise());
                        }
                    }
                }
                Ok(())
            }
            TerminatorKind::Return => {
                let d = self.depth(st);
                let v = self.load(st, &Ptr::root(Root::Loc(d, 0)));
                let v = if v == Val::Undef { Val::unit() } else { v };
                self.do_return(st, v)
            }
            TerminatorKind::Unreachable | TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                Err(Stop::End)
            }
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&b.local_decls, self.tcx).ty;
                let p = self.place(st, b, place);
                self.drop_place(st, p, ty, *target)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(st, b, cond);
                let c = self.to_cond(&c);
                let c = if *expected { c } else { c.not() };
                // pointer validity checks of dereferences inside library smart pointers
                if matches!(
                    &**msg,
                    mir::AssertKind::MisalignedPointerDereference { .. }
                        | mir::AssertKind::NullPointerDereference
                        | mir::AssertKind::NullReferenceConstructed
                        | mir::AssertKind::InvalidEnumConstruction(_)
                ) {
                    self.goto(st, *target);
                    return Ok(());
                }
                let (kind, args): (&str, Vec<Val<'tcx>>) = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => {
                        ("index", vec![self.operand(st, b, index), self.operand(st, b, len)])
                    }
                    mir::AssertKind::Overflow(op, x, y) => (
                        match op {
                            mir::BinOp::Sub => "sub-overflow",
                            mir::BinOp::Add => "add-overflow",
                            mir::BinOp::Mul => "mul-overflow",
                            _ => "overflow",
                        },
                        vec![self.operand(st, b, x), self.operand(st, b, y)],
                    ),
                    mir::AssertKind::DivisionByZero(_) => ("division-by-zero", vec![]),
                    mir::AssertKind::RemainderByZero(_) => ("remainder-by-zero", vec![]),
                    _ => ("arith", vec![]),
                };
                let ok = self.decide_c(st, &c)?;
                let mut e = Ev::new(EvK::Assert, kind);
                e.ok = Some(ok);
                e.args = args.clone();
                e.loc = loc.into();
                if !ok {
                    e.k = EvK::Panic;
                    self.stats.borrow_mut().panics += 1;
                    self.emit(st, e)?;
                    return Err(Stop::End);
                }
                self.monitor(st, &e)?;
                self.goto(st, *target);
                Ok(())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&b.local_decls, self.tcx);
                let fval = self.operand(st, b, func);
                let argtys: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(&b.local_decls, self.tcx)).collect();
                let argv: Vec<Val<'tcx>> = args.iter().map(|a| self.operand(st, b, &a.node)).collect();
                let dty = destination.ty(&b.local_decls, self.tcx).ty;
                let dest = self.place(st, b, destination);
                self.call(st, fty, fval, argv, argtys, dest, dty, *target, loc)
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(())
            }
            k => Err(Stop::Incomplete(format!("terminator {k:?}"))),
        }
    }

    fn drop_place(&self, st: &mut State<'tcx>, p: Ptr<'tcx>, ty: Ty<'tcx>, target: BasicBlock) -> R<()> {
        // values with a user-visible Drop in this crate run it; lock guards release their lock
        if let ty::Adt(d, _) = ty.kind() {
            if let Some(dest) = self.tcx.adt_destructor(d.did()) {
                if d.did().is_local() {
                    let inst = Instance::try_resolve(self.tcx, self.env, dest.did, match ty.kind() {
                        ty::Adt(_, a) => a,
                        _ => unreachable!(),
                    });
                    if let Ok(Some(inst)) = inst {
                        if let Some(body) = self.body(inst) {
                            let fi = st.frames.len() - 1;
                            let _ = fi;
                            let tmp = Ptr::root(Root::Loc(self.depth(st), 1_000_000));
                            return self.push_frame(st, body, vec![Val::Ref(p)], Some(tmp), Some(target));
                        }
                    }
                    return Err(Stop::Incomplete(format!("drop of {ty}")));
                }
            }
        }
        let v = self.load(st, &p);
        self.release(st, &v);
        self.goto(st, target);
        Ok(())
    }
    fn drain_step(&self, st: &mut State<'tcx>, pc: u32, iter_ty: Ty<'tcx>, next_did: DefId) -> R<()> {
        let d = self.depth(st);
        let fi = st.frames.len() - 1;
        let it = Ptr::root(Root::Loc(d, 0));
        let item = Ptr::root(Root::Loc(d, 1));
        // `extend` names the collection that grows
        let (coll, grows) = match self.load(st, &Ptr::root(Root::Loc(d, 3))) {
            Val::Ref(p) => (p, true),
            _ => (Ptr::root(Root::Loc(d, 2)), false),
        };
        if pc == 0 {
            if let FrameKind::Drain { pc, .. } = &mut st.frames[fi].kind {
                *pc = 1;
            }
            let args = self.tcx.mk_args(&[iter_ty.into()]);
            let item_ty = {
                let sig = self.tcx.fn_sig(next_did).instantiate(self.tcx, args).skip_norm_wip();
                let o = sig.skip_binder().output();
                self.subst_ty(o)
            };
            return self.call_def(st, next_did, args, vec![Val::Ref(it)], vec![], item, item_ty, None, "");
        }
        // pc 1: an item is available
        let v = self.load(st, &item);
        let var = match v.variant() {
            Some(x) => x,
            None => {
                let l = match &v {
                    Val::Undef => return Err(Stop::Incomplete("drain item".into())),
                    v => Lin::s(self.tm.app("discr", vec![v.clone()], true)),
                };
                if self.decide(st, &Atom::Eq(l))? { 0 } else { 1 }
            }
        };
        st.mem.remove(&item.root);
        if var == 1 {
            let x = v.fld(0).cloned().unwrap_or(Val::Undef);
            let c = self.load(st, &coll);
            if let Val::Coll(s, n) = c {
                let mut e = Ev::new(EvK::Push, "push");
                e.subj = Val::Coll(s, n.clone());
                e.args = vec![x];
                self.emit(st, e)?;
                self.store(st, &coll, Val::Coll(s, n.addk(1)));
            } else if grows {
                return Err(Stop::Incomplete("extend of an unknown collection".into()));
            }
            if let FrameKind::Drain { pc, .. } = &mut st.frames[fi].kind {
                *pc = 0;
            }
            Ok(())
        } else {
            let c = if grows { Val::unit() } else { self.load(st, &coll) };
            self.do_return(st, c)
        }
    }
}

fn loop_heads(b: &Body<'_>) -> Vec<bool> {
    let n = b.basic_blocks.len();
    let mut heads = vec![false; n];
    let mut state = vec![0u8; n];
    // iterative DFS for retreating edges
    let mut stack = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((x, i)) = stack.pop() {
        let succ: Vec<usize> =
            b.basic_blocks[BasicBlock::from_usize(x)].terminator().successors().map(|s| s.as_usize()).collect();
        if i < succ.len() {
            stack.push((x, i + 1));
            let s = succ[i];
            if state[s] == 0 {
                state[s] = 1;
                stack.push((s, 0));
            } else if state[s] == 1 {
                heads[s] = true;
            }
        } else {
            state[x] = 2;
        }
    }
    heads
}

fn liveness(b: &Body<'_>) -> Vec<Vec<bool>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor};
    struct V {
        used: Vec<bool>,
        borrowed: Vec<bool>,
    }
    impl<'tcx> Visitor<'tcx> for V {
        fn visit_local(&mut self, l: mir::Local, c: PlaceContext, _: mir::Location) {
            if c.is_borrow() || c.is_address_of() {
                self.borrowed[l.as_usize()] = true;
            }
            if !c.is_storage_marker() {
                self.used[l.as_usize()] = true;
            }
        }
    }
    let nl = b.local_decls.len();
    let nb = b.basic_blocks.len();
    let mut borrowed = vec![false; nl];
    let mut uses: Vec<Vec<bool>> = vec![];
    for (bb, data) in b.basic_blocks.iter_enumerated() {
        let mut v = V { used: vec![false; nl], borrowed: vec![false; nl] };
        v.visit_basic_block_data(bb, data);
        for i in 0..nl {
            borrowed[i] |= v.borrowed[i];
        }
        uses.push(v.used);
    }
    // may-be-used-later: any mention reachable (whole-assign kills are ignored: over-approximation)
    let mut live = uses.clone();
    loop {
        let mut ch = false;
        for i in (0..nb).rev() {
            let succ: Vec<usize> =
                b.basic_blocks[BasicBlock::from_usize(i)].terminator().successors().map(|s| s.as_usize()).collect();
            for s in succ {
                for l in 0..nl {
                    if live[s][l] && !live[i][l] {
                        live[i][l] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    for l in live.iter_mut() {
        for i in 0..nl {
            if borrowed[i] || i == 0 {
                l[i] = true;
            }
        }
    }
    live
}

pub fn fndef<'tcx>(t: Ty<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
    match t.kind() {
        ty::FnDef(d, a) => Some(((*d).into(), a.skip_binder())),
        _ => None,
    }
}

/// (bits, signed) of an integer or character type; machine words count as 64 bits
fn int_shape(t: Ty<'_>) -> Option<(u64, bool)> {
    Some(match t.kind() {
        ty::Uint(u) => (u.bit_width().unwrap_or(64), false),
        ty::Int(i) => (i.bit_width().unwrap_or(64), true),
        ty::Char => (21, false),
        ty::Bool => (1, false),
        _ => return None,
    })
}
/// does the conversion keep every value?
fn widens(from: Ty<'_>, to: Ty<'_>) -> bool {
    match (int_shape(from), int_shape(to)) {
        (Some((a, sa)), Some((b, sb))) => if sa == sb { a <= b } else { !sa && a < b },
        _ => false,
    }
}
/// the number a bit pattern stands for in a type
fn sign_of(bits: u128, t: Ty<'_>) -> i128 {
    match t.kind() {
        ty::Int(i) => {
            let w = i.bit_width().unwrap_or(64);
            if w >= 128 { bits as i128 } else { ((bits << (128 - w)) as i128) >> (128 - w) }
        }
        _ => bits as i128,
    }
}
fn int_fits(k: i128, t: Ty<'_>) -> bool {
    match int_shape(t) {
        Some((b, false)) => k >= 0 && (b >= 127 || k < (1i128 << b)),
        Some((b, true)) => b >= 127 || (k >= -(1i128 << (b - 1)) && k < (1i128 << (b - 1))),
        None => false,
    }
}
