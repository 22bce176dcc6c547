//! Symbolic linear terms, abstract values and the fact store of the abstract domain.
use rustc_middle::ty::Ty;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Sym = u32;

/// `c + sum(coef * sym)`, terms sorted by symbol, no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() { Some(self.c) } else { None }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None }
    }
    pub fn is_zero(&self) -> bool {
        self.c == 0 && self.t.is_empty()
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.lc(1, o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.lc(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        let mut r = self.clone();
        r.c += k;
        r
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::default();
        }
        Lin { c: self.c * k, t: self.t.iter().map(|(s, c)| (*s, c * k)).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn lc(&self, a: i128, o: &Lin, b: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let si = self.t.get(i).map(|x| x.0).unwrap_or(Sym::MAX);
            let sj = o.t.get(j).map(|x| x.0).unwrap_or(Sym::MAX);
            let (s, c) = if i < self.t.len() && (j >= o.t.len() || si < sj) {
                i += 1;
                (si, self.t[i - 1].1 * a)
            } else if j < o.t.len() && (i >= self.t.len() || sj < si) {
                j += 1;
                (sj, o.t[j - 1].1 * b)
            } else {
                i += 1;
                j += 1;
                (si, self.t[i - 1].1 * a + o.t[j - 1].1 * b)
            };
            if c != 0 {
                t.push((s, c));
            }
        }
        Lin { c: self.c * a + o.c * b, t }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        self.t.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0)
    }
    pub fn subst(&self, s: Sym, by: &Lin) -> Lin {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.lc(1, by, k)
    }
    pub fn subst_map(&self, m: &HashMap<Sym, Lin>) -> Lin {
        let mut r = Lin::k(self.c);
        for (s, k) in &self.t {
            match m.get(s) {
                Some(l) => r = r.lc(1, l, *k),
                None => r = r.lc(1, &Lin::s(*s), *k),
            }
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Root {
    Loc(u32, u32),
    Ext(Sym),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE<'tcx> {
    Field(u32, u32, Ty<'tcx>),
    Index(Lin, Ty<'tcx>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr<'tcx> {
    pub root: Root,
    pub path: Vec<PE<'tcx>>,
}

impl<'tcx> Ptr<'tcx> {
    pub fn root(root: Root) -> Self {
        Ptr { root, path: vec![] }
    }
    pub fn field(&self, v: u32, i: u32, ty: Ty<'tcx>) -> Self {
        let mut p = self.clone();
        p.path.push(PE::Field(v, i, ty));
        p
    }
    pub fn index(&self, l: Lin, ty: Ty<'tcx>) -> Self {
        let mut p = self.clone();
        p.path.push(PE::Index(l, ty));
        p
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
    B(Sym),
    NB(Sym),
}

impl Atom {
    pub fn not(&self) -> Atom {
        match self {
            Atom::Ge(l) => Atom::Ge(l.neg().addk(-1)),
            Atom::Eq(l) => Atom::Ne(l.clone()),
            Atom::Ne(l) => Atom::Eq(l.clone()),
            Atom::B(s) => Atom::NB(*s),
            Atom::NB(s) => Atom::B(*s),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    K(bool),
    A(Atom),
}

impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::K(b) => Cond::K(!b),
            Cond::A(a) => Cond::A(a.not()),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val<'tcx> {
    Undef,
    Lin(Lin),
    Bool(Cond),
    /// variant index (0 for structs, tuples, closures) and fields
    Agg(u32, Rc<Vec<Val<'tcx>>>),
    Sym(Sym, Ty<'tcx>),
    Ref(Ptr<'tcx>),
    Fun(Ty<'tcx>),
    Str(Rc<str>),
    /// slice iterator over the elements of `base`: positions `pos..end`
    It { base: Ptr<'tcx>, elem: Ty<'tcx>, pos: Lin, end: Lin },
    /// growable sequence with identity and length
    Coll(Sym, Lin),
    /// uniform array value (repeat expression) with identity
    Arr(Sym, Lin),
}

impl<'tcx> Val<'tcx> {
    pub fn agg(v: u32, f: Vec<Val<'tcx>>) -> Self {
        Val::Agg(v, Rc::new(f))
    }
    pub fn unit() -> Self {
        Val::Agg(0, Rc::new(vec![]))
    }
    pub fn bool(b: bool) -> Self {
        Val::Bool(Cond::K(b))
    }
    pub fn k(c: i128) -> Self {
        Val::Lin(Lin::k(c))
    }
    pub fn variant(&self) -> Option<u32> {
        if let Val::Agg(v, _) = self { Some(*v) } else { None }
    }
    pub fn fld(&self, i: usize) -> Option<&Val<'tcx>> {
        if let Val::Agg(_, f) = self { f.get(i) } else { None }
    }
    pub fn lin(&self) -> Option<&Lin> {
        if let Val::Lin(l) = self { Some(l) } else { None }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SymKind<'tcx> {
    Arg(u32),
    Fresh(u32, Rc<str>),
    Phi(u32),
    App(Rc<str>, Vec<Val<'tcx>>),
}

pub struct SymInfo<'tcx> {
    pub kind: SymKind<'tcx>,
    pub nonneg: bool,
    /// depends only on the entry state of the analysed function
    pub entry: bool,
}

#[derive(Default)]
pub struct Interner<'tcx> {
    pub syms: Vec<SymInfo<'tcx>>,
    pub map: HashMap<SymKind<'tcx>, Sym>,
    pub ext_ty: HashMap<Sym, Ty<'tcx>>,
    pub sym_ty: HashMap<Sym, Ty<'tcx>>,
    pub fresh: u32,
}

pub struct Terms<'tcx>(pub RefCell<Interner<'tcx>>);

impl<'tcx> Terms<'tcx> {
    pub fn new() -> Self {
        Terms(RefCell::new(Interner { syms: vec![], map: HashMap::new(), ext_ty: HashMap::new(), sym_ty: HashMap::new(), fresh: 0 }))
    }
    pub fn intern(&self, kind: SymKind<'tcx>, nonneg: bool) -> Sym {
        let got = self.0.borrow().map.get(&kind).copied();
        if let Some(s) = got {
            if nonneg {
                self.0.borrow_mut().syms[s as usize].nonneg = true;
            }
            return s;
        }
        let entry = match &kind {
            SymKind::Arg(_) => true,
            SymKind::Fresh(..) | SymKind::Phi(_) => false,
            // elements at constant positions, or at a distance from a given one: one per unrolled iteration
            SymKind::App(h, a) if &**h == "[]" && matches!(a.last(), Some(Val::Lin(l)) if l.is_const().is_some() || l.c != 0) => false,
            SymKind::App(_, a) => a.iter().all(|v| self.val_entry(v)),
        };
        let mut b = self.0.borrow_mut();
        let s = b.syms.len() as Sym;
        b.map.insert(kind.clone(), s);
        b.syms.push(SymInfo { kind, nonneg, entry });
        s
    }
    pub fn kind(&self, s: Sym) -> SymKind<'tcx> {
        self.0.borrow().syms[s as usize].kind.clone()
    }
    pub fn nonneg(&self, s: Sym) -> bool {
        self.0.borrow().syms[s as usize].nonneg
    }
    pub fn entry(&self, s: Sym) -> bool {
        self.0.borrow().syms[s as usize].entry
    }
    pub fn set_nonneg(&self, s: Sym) {
        self.0.borrow_mut().syms[s as usize].nonneg = true;
    }
    pub fn fresh(&self, tag: &str, nonneg: bool) -> Sym {
        let n = {
            let mut b = self.0.borrow_mut();
            b.fresh += 1;
            b.fresh
        };
        self.intern(SymKind::Fresh(n, tag.into()), nonneg)
    }
    pub fn phi(&self, nonneg: bool) -> Sym {
        let n = {
            let mut b = self.0.borrow_mut();
            b.fresh += 1;
            b.fresh
        };
        self.intern(SymKind::Phi(n), nonneg)
    }
    pub fn app(&self, head: &str, args: Vec<Val<'tcx>>, nonneg: bool) -> Sym {
        self.intern(SymKind::App(head.into(), args), nonneg)
    }
    pub fn set_ext_ty(&self, s: Sym, ty: Ty<'tcx>) {
        self.0.borrow_mut().ext_ty.entry(s).or_insert(ty);
    }
    pub fn ext_ty(&self, s: Sym) -> Ty<'tcx> {
        self.0.borrow().ext_ty[&s]
    }
    pub fn set_sym_ty(&self, s: Sym, ty: Ty<'tcx>) {
        self.0.borrow_mut().sym_ty.entry(s).or_insert(ty);
    }
    pub fn sym_ty(&self, s: Sym) -> Option<Ty<'tcx>> {
        self.0.borrow().sym_ty.get(&s).copied()
    }
    pub fn lin_entry(&self, l: &Lin) -> bool {
        l.t.iter().all(|(s, _)| self.entry(*s))
    }
    pub fn lin_nonneg(&self, l: &Lin) -> bool {
        l.c >= 0 && l.t.iter().all(|(s, k)| *k > 0 && self.nonneg(*s))
    }
    pub fn val_entry(&self, v: &Val<'tcx>) -> bool {
        match v {
            Val::Undef | Val::Fun(_) | Val::Str(_) => true,
            Val::Lin(l) => self.lin_entry(l),
            Val::Bool(Cond::K(_)) => true,
            Val::Bool(Cond::A(a)) => self.atom_entry(a),
            Val::Agg(_, f) => f.iter().all(|x| self.val_entry(x)),
            Val::Sym(s, _) => self.entry(*s),
            Val::Ref(p) => self.ptr_entry(p),
            Val::It { base, pos, end, .. } => self.ptr_entry(base) && self.lin_entry(pos) && self.lin_entry(end),
            Val::Coll(s, l) | Val::Arr(s, l) => self.entry(*s) && self.lin_entry(l),
        }
    }
    pub fn atom_entry(&self, a: &Atom) -> bool {
        match a {
            Atom::Ge(l) | Atom::Eq(l) | Atom::Ne(l) => self.lin_entry(l),
            Atom::B(s) | Atom::NB(s) => self.entry(*s),
        }
    }
    pub fn ptr_entry(&self, p: &Ptr<'tcx>) -> bool {
        (match p.root {
            Root::Ext(s) => self.entry(s),
            Root::Loc(..) => false,
        }) && p.path.iter().all(|e| match e {
            PE::Field(..) => true,
            PE::Index(l, _) => self.lin_entry(l),
        })
    }

    // ---- printing -------------------------------------------------------------------
    pub fn show_sym(&self, s: Sym) -> String {
        match self.kind(s) {
            SymKind::Arg(i) => format!("arg{i}"),
            SymKind::Fresh(n, t) => format!("{t}%{n}"),
            SymKind::Phi(n) => format!("phi%{n}"),
            SymKind::App(h, a) => {
                let a: Vec<_> = a.iter().map(|x| self.show(x)).collect();
                if &*h == "*" {
                    format!("*{}", a[0])
                } else if h.starts_with('.') {
                    format!("{}{}", a[0], h)
                } else {
                    format!("{h}({})", a.join(","))
                }
            }
        }
    }
    pub fn show_lin(&self, l: &Lin) -> String {
        let mut o = String::new();
        for (s, k) in &l.t {
            if !o.is_empty() || *k < 0 {
                o.push_str(if *k < 0 { "-" } else { "+" });
            }
            if k.abs() != 1 {
                o.push_str(&format!("{}*", k.abs()));
            }
            o.push_str(&self.show_sym(*s));
        }
        if l.c != 0 || o.is_empty() {
            if l.c >= 0 && !o.is_empty() {
                o.push('+');
            }
            o.push_str(&l.c.to_string());
        }
        o
    }
    pub fn show_ptr(&self, p: &Ptr<'tcx>) -> String {
        let mut o = match p.root {
            Root::Loc(d, l) => format!("&f{d}._{l}"),
            Root::Ext(s) => format!("&*{}", self.show_sym(s)),
        };
        for e in &p.path {
            match e {
                PE::Field(v, i, _) => {
                    if *v != 0 {
                        o.push_str(&format!(".{v}"));
                    }
                    o.push_str(&format!(".{i}"))
                }
                PE::Index(l, _) => o.push_str(&format!("[{}]", self.show_lin(l))),
            }
        }
        o
    }
    pub fn show_atom(&self, a: &Atom) -> String {
        match a {
            Atom::Ge(l) => format!("{} >= 0", self.show_lin(l)),
            Atom::Eq(l) => format!("{} == 0", self.show_lin(l)),
            Atom::Ne(l) => format!("{} != 0", self.show_lin(l)),
            Atom::B(s) => self.show_sym(*s),
            Atom::NB(s) => format!("!{}", self.show_sym(*s)),
        }
    }
    pub fn show(&self, v: &Val<'tcx>) -> String {
        match v {
            Val::Undef => "undef".into(),
            Val::Lin(l) => self.show_lin(l),
            Val::Bool(Cond::K(b)) => b.to_string(),
            Val::Bool(Cond::A(a)) => format!("({})", self.show_atom(a)),
            Val::Agg(v, f) => {
                let a: Vec<_> = f.iter().map(|x| self.show(x)).collect();
                format!("#{v}{{{}}}", a.join(", "))
            }
            Val::Sym(s, _) => self.show_sym(*s),
            Val::Ref(p) => self.show_ptr(p),
            Val::Fun(t) => format!("fn<{t}>"),
            Val::Str(s) => format!("{s:?}"),
            Val::It { base, pos, end, .. } => {
                format!("iter({}, {}..{})", self.show_ptr(base), self.show_lin(pos), self.show_lin(end))
            }
            Val::Coll(s, l) => format!("coll({}, len {})", self.show_sym(*s), self.show_lin(l)),
            Val::Arr(s, l) => format!("arr({}, len {})", self.show_sym(*s), self.show_lin(l)),
        }
    }
}

/// Facts known on a path.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Facts {
    pub ge: Vec<Lin>,
    pub eqs: BTreeMap<Sym, Lin>,
    pub ne: Vec<Lin>,
    pub b: BTreeMap<Sym, bool>,
}

impl Facts {
    pub fn reduce(&self, l: &Lin) -> Lin {
        if self.eqs.is_empty() {
            return l.clone();
        }
        let mut r = l.clone();
        for _ in 0..16 {
            let mut hit = None;
            for (s, _) in &r.t {
                if let Some(e) = self.eqs.get(s) {
                    hit = Some((*s, e.clone()));
                    break;
                }
            }
            match hit {
                Some((s, e)) => r = r.subst(s, &e),
                None => break,
            }
        }
        r
    }
    /// something is known to be at least this symbol
    pub fn limited(&self, s: Sym) -> bool {
        self.ge.iter().any(|f| self.reduce(f).t.iter().any(|(x, k)| *x == s && *k < 0))
    }
    fn triv(&self, tm: &Terms, l: &Lin) -> bool {
        tm.lin_nonneg(&self.reduce(l))
    }
    pub fn ge(&self, tm: &Terms, l: &Lin) -> bool {
        let l = self.reduce(l);
        if tm.lin_nonneg(&l) {
            return true;
        }
        let red: Vec<Lin> = self.ge.iter().map(|f| self.reduce(f)).collect();
        for f in &red {
            if self.triv(tm, &l.sub(f)) {
                return true;
            }
        }
        for (i, f) in red.iter().enumerate() {
            let lf = l.sub(f);
            for g in &red[i + 1..] {
                if self.triv(tm, &lf.sub(g)) {
                    return true;
                }
            }
        }
        if red.len() <= 14 {
            for (i, f) in red.iter().enumerate() {
                let lf = l.sub(f);
                for (j, g) in red.iter().enumerate().skip(i + 1) {
                    let lg = lf.sub(g);
                    for h in &red[j + 1..] {
                        if self.triv(tm, &lg.sub(h)) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    pub fn entails(&self, tm: &Terms, a: &Atom) -> bool {
        match a {
            Atom::Ge(l) => self.ge(tm, l),
            Atom::Eq(l) => self.reduce(l).is_zero() || (self.ge(tm, l) && self.ge(tm, &l.neg())),
            Atom::Ne(l) => {
                let r = self.reduce(l);
                if let Some(c) = r.is_const() {
                    return c != 0;
                }
                self.ne.iter().any(|n| {
                    let n = self.reduce(n);
                    n == r || n == r.neg()
                }) || self.ge(tm, &r.addk(-1))
                    || self.ge(tm, &r.neg().addk(-1))
            }
            Atom::B(s) => self.b.get(s) == Some(&true),
            Atom::NB(s) => self.b.get(s) == Some(&false),
        }
    }
    pub fn add(&mut self, a: &Atom, tm: &Terms) {
        match a {
            Atom::Ge(l) => {
                let l = self.reduce(l);
                if l.is_const().is_some() {
                    return;
                }
                if !self.ge.contains(&l) {
                    // a + opposite inequality makes an equality
                    if self.ge(tm, &l.neg()) {
                        self.add(&Atom::Eq(l), tm);
                        return;
                    }
                    // strengthen with a known disequality
                    if self.ne.iter().any(|n| {
                        let n = self.reduce(n);
                        n == l || n == l.neg()
                    }) {
                        self.ge.push(l.addk(-1));
                    } else {
                        self.ge.push(l);
                    }
                }
            }
            Atom::Eq(l) => {
                let l = self.reduce(l);
                // pivot: newest symbol with unit coefficient
                if let Some((s, k)) = l.t.iter().rev().find(|x| x.1.abs() == 1).cloned() {
                    let mut rest = l.clone();
                    rest.t.retain(|x| x.0 != s);
                    let e = rest.scale(-k);
                    if tm.nonneg(s) {
                        self.ge.push(e.clone());
                    }
                    self.eqs.insert(s, e);
                } else if l.is_const().is_none() {
                    self.ge.push(l.clone());
                    self.ge.push(l.neg());
                }
            }
            Atom::Ne(l) => {
                let l = self.reduce(l);
                if self.ge(tm, &l) {
                    self.ge.push(l.addk(-1));
                } else if self.ge(tm, &l.neg()) {
                    self.ge.push(l.neg().addk(-1));
                } else if !self.ne.contains(&l) {
                    self.ne.push(l);
                }
            }
            Atom::B(s) => {
                self.b.insert(*s, true);
            }
            Atom::NB(s) => {
                self.b.insert(*s, false);
            }
        }
    }
    pub fn show(&self, tm: &Terms) -> String {
        let mut o: Vec<String> = vec![];
        for l in &self.ge {
            o.push(format!("{} >= 0", tm.show_lin(l)));
        }
        for (s, l) in &self.eqs {
            o.push(format!("{} = {}", tm.show_sym(*s), tm.show_lin(l)));
        }
        for l in &self.ne {
            o.push(format!("{} != 0", tm.show_lin(l)));
        }
        for (s, b) in &self.b {
            o.push(format!("{}{}", if *b { "" } else { "!" }, tm.show_sym(*s)));
        }
        o.join(" & ")
    }
}
