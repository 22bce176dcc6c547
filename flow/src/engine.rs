//! Fixpoint engine: trace partitioning by shape, widening at loop heads.
use crate::interp::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Default, Clone)]
struct Subst<'tcx> {
    lin: HashMap<Sym, Lin>,
    sym: HashMap<Sym, Val<'tcx>>,
    cond: HashMap<Sym, Cond>,
    root: HashMap<Sym, Ptr<'tcx>>,
}

enum Slot<'tcx> {
    L(Lin),
    B(Cond),
    S(Sym, Option<rustc_middle::ty::Ty<'tcx>>),
    /// external root of a reference
    P(Sym),
}

pub struct Engine<'a, 'tcx> {
    pub cx: &'a Cx<'tcx>,
    pub heads: HashMap<String, Head<'tcx>>,
    pub seen: HashSet<String>,
    pub changed: bool,
    pub budget: usize,
    began: std::time::Instant,
}

impl<'a, 'tcx> Engine<'a, 'tcx> {
    pub fn new(cx: &'a Cx<'tcx>) -> Self {
        Engine { cx, heads: HashMap::new(), seen: HashSet::new(), changed: false, budget: 6_000_000, began: std::time::Instant::now() }
    }

    /// Analyse to a fixpoint; findings and obligations are those of the last, stable pass.
    pub fn run(&mut self, init: &State<'tcx>) -> Result<(), String> {
        *self.cx.last_pass.borrow_mut() = true;
        for pass in 0..40 {
            self.cx.findings.borrow_mut().clear();
            self.cx.undecided.borrow_mut().clear();
            self.cx.oblig.borrow_mut().clear();
            {
                let mut s = self.cx.stats.borrow_mut();
                s.exits = 0;
                s.events = 0;
                s.panics = 0;
                s.passes = pass + 1;
            }
            self.changed = false;
            self.seen.clear();
            self.explore(init.clone())?;
            self.cx.stats.borrow_mut().heads = self.heads.len();
            if !self.changed {
                return Ok(());
            }
        }
        Err("no fixpoint".into())
    }

    fn at_head(&self, st: &State<'tcx>) -> bool {
        match &st.frames.last().unwrap().kind {
            FrameKind::Mir { body, bb, ix } => *ix == 0 && body.heads[bb.as_usize()],
            FrameKind::Drain { pc, .. } => *pc == 0,
        }
    }

    fn explore(&mut self, init: State<'tcx>) -> Result<(), String> {
        let cx = self.cx;
        let mut work = vec![init];
        while let Some(mut st) = work.pop() {
            let mut fresh_head = false;
            loop {
                if self.budget == 0 {
                    return Err("step budget exhausted".into());
                }
                self.budget -= 1;
                if self.budget % 256 == 0 && self.began.elapsed().as_secs() > 40 {
                    return Err("time budget exhausted".into());
                }
                if !st.frames.is_empty() && !fresh_head && st.tpos == 0 && st.tape.is_empty() && self.at_head(&st) {
                    match self.head(st)? {
                        Some(n) => {
                            st = n;
                            fresh_head = true;
                            continue;
                        }
                        None => break,
                    }
                }
                let snap = st.clone();
                let r = if st.frames.is_empty() { self.exit(&mut st) } else { cx.step(&mut st) };
                match r {
                    Ok(()) => {
                        fresh_head = false;
                        st.tape.clear();
                        st.tpos = 0;
                    }
                    Err(Stop::Choose(n)) => {
                        for k in (0..n).rev() {
                            let mut s = snap.clone();
                            s.tpos = 0;
                            s.tape.push(k);
                            work.push(s);
                        }
                        break;
                    }
                    Err(Stop::End) => break,
                    Err(Stop::Incomplete(w)) => {
                        // this path is given up, the others are still analysed
                        self.cx.undecided.borrow_mut().insert(format!("{w} (path: {})", snap.trace.join(" ; ")));
                        break;
                    }
                }
            }
            if work.len() > 50_000 {
                return Err("too many states".into());
            }
        }
        Ok(())
    }
    fn exit(&self, st: &mut State<'tcx>) -> R<()> {
        let cx = self.cx;
        let ret = st.mem.get(&Root::Loc(0, 0)).cloned().unwrap_or(Val::unit());
        let m = cx.mon.borrow().clone();
        let n = cx.oblig.borrow().clone();
        if let Some(m) = m {
            let r = m.exit(cx, st, &ret);
            if let Err(Stop::Choose(_)) = r {
                // do not count obligations of an abandoned attempt twice
                *cx.oblig.borrow_mut() = n;
            }
            r?;
            // the monitor asks for something more
            if !st.frames.is_empty() {
                return Ok(());
            }
        }
        cx.stats.borrow_mut().exits += 1;
        cx.untouched(st);
        Err(Stop::End)
    }

    // ---- heads -------------------------------------------------------------------------
    fn head(&mut self, mut st: State<'tcx>) -> Result<Option<State<'tcx>>, String> {
        let m = self.cx.mon.borrow().clone();
        if let Some(m) = m {
            m.head(self.cx, &mut st);
        }
        self.normalise(&mut st);
        st.looks.retain(|l| self.cx.tm.entry(l.0));
        for l in &mut st.looks {
            l.2 = None;
        }
        st.looks.sort_by_key(|l| l.0);
        self.it_facts(&mut st);
        let place = self.place(&st);
        self.spins(&st, &place);
        if st.part.is_none() {
            let tm = &self.cx.tm;
            let mut v: Vec<String> = vec![];
            let mut put = |l: &Lin, k: &str| {
                if l.is_const().is_none() && l.t.iter().all(|x| tm.entry(x.0)) {
                    v.push(format!("{}{k}", tm.show_lin(l)));
                }
            };
            for l in &st.facts.ge {
                put(l, ">");
            }
            for (s, l) in &st.facts.eqs {
                put(&Lin::s(*s).sub(l), "=");
            }
            for l in &st.facts.ne {
                put(l, "!");
            }
            v.sort();
            st.part = Some(v.join(",").into());
        }
        let key = self.key(&st);
        if std::env::var("FLOW_KEYS").is_ok() {
            eprintln!("KEY {key}");
        }
        let first = self.seen.insert(key.clone());
        match self.heads.get(&key) {
            None => {
                self.changed = true;
                let mut phis = BTreeSet::new();
                self.collect_phis(&st, &mut phis);
                if self.heads.len() > 4000 {
                    return Err(format!("too many partitions at {}", key));
                }
                self.heads.insert(key, Head { st: st.clone(), phis, explored: 0, joins: 0 });
                self.turn(&mut st, place);
                Ok(Some(st))
            }
            Some(h) => {
                if self.included(&st, h) {
                    if first {
                        let mut n = h.st.clone();
                        n.trace = st.trace.clone();
                        n.wid = st.wid || h.joins > 0;
                        n.turns = st.turns.clone();
                        n.ticks = st.ticks;
                        self.turn(&mut n, place);
                        Ok(Some(n))
                    } else {
                        Ok(None)
                    }
                } else {
                    let joins = h.joins + 1;
                    if joins > 30 {
                        return Err(format!("no stable state at {}", key));
                    }
                    let mut j = self.join(&h.st, &st, joins);
                    self.it_facts(&mut j);
                    j.wid = true;
                    let mut phis = BTreeSet::new();
                    self.collect_phis(&j, &mut phis);
                    if std::env::var("FLOW_TRACE").is_ok() {
                        eprintln!("JOIN {joins} at {key}\n   A: {}\n   B: {}\n   J: {}", self.show(&h.st), self.show(&st), self.show(&j));
                    }
                    self.changed = true;
                    self.heads.insert(key, Head { st: j.clone(), phis, explored: 0, joins });
                    j.turns = st.turns.clone();
                    j.ticks = st.ticks;
                    self.turn(&mut j, place);
                    Ok(Some(j))
                }
            }
        }
    }
    /// where a loop head is in the running functions
    fn place(&self, st: &State<'tcx>) -> String {
        let mut o = String::new();
        for f in &st.frames {
            match &f.kind {
                FrameKind::Mir { body, bb, .. } => o.push_str(&format!("{}#{}", body.name, bb.as_u32())),
                FrameKind::Drain { pc, .. } => o.push_str(&format!("drain{pc}")),
            }
            o.push_str(&format!("/{:?};", f.target));
        }
        o
    }
    fn turn(&self, st: &mut State<'tcx>, place: String) {
        st.turns.retain(|t| *t.0 != *place);
        let t = Turn { mem: st.mem.clone(), off: st.off.clone(), iters: st.iters.clone(), held: st.held.clone(), ticks: st.ticks };
        st.turns.push((place.into(), Rc::new(t)));
    }
    /// A turn of a loop that ends in the state it began in, without anything that could go differently
    /// the next time, is repeated for ever.
    fn spins(&self, st: &State<'tcx>, place: &str) {
        let Some((_, t)) = st.turns.iter().find(|t| *t.0 == *place) else { return };
        self.cx.obligation("turn");
        if t.ticks != st.ticks || t.held != st.held {
            return;
        }
        let facts = &st.facts;
        let red = |l: &Lin| facts.reduce(l);
        let same = t.mem.len() == st.mem.len()
            && t.mem.iter().all(|(r, v)| {
                let v = self.red_parts(&map_lin(v, &red), &red);
                st.mem.get(r) == Some(&v)
            })
            && t.off.len() == st.off.len()
            && t.off.iter().all(|(s, l)| st.off.get(s) == Some(&red(l)))
            && t.iters.iter().all(|(s, i)| {
                st.iters.get(s).is_none_or(|j| red(&i.pos) == j.pos && red(&i.len) == j.len && red(&i.base) == j.base)
            });
        if same {
            self.cx.report(st, "C33", "a turn of a loop changes nothing, the loop goes on for ever".into());
        }
    }
    pub fn show(&self, st: &State<'tcx>) -> String {
        let tm = &self.cx.tm;
        let mut o = String::new();
        for (r, v) in &st.mem {
            o.push_str(&format!("{r:?}={} ", tm.show(v)));
        }
        for (s, l) in &st.off {
            o.push_str(&format!("off[{}]={} ", tm.show_sym(*s), tm.show_lin(l)));
        }
        for (s, l) in &st.iters {
            o.push_str(&format!("it[{}]={}/{} ", tm.show_sym(*s), tm.show_lin(&l.pos), tm.show_lin(&l.len)));
        }
        for (s, l) in &st.g {
            o.push_str(&format!("{}={} ", s, tm.show(l)));
        }
        o.push_str("| ");
        o.push_str(&st.facts.show(tm));
        o
    }

    /// an iterator over a sequence never passes its end
    fn it_facts(&self, st: &mut State<'tcx>) {
        fn walk<'tcx>(v: &Val<'tcx>, out: &mut Vec<Lin>) {
            match v {
                Val::It { pos, end, .. } => out.push(end.sub(pos)),
                Val::Agg(_, f) => f.iter().for_each(|x| walk(x, out)),
                _ => {}
            }
        }
        let mut l = vec![];
        st.mem.values().for_each(|v| walk(v, &mut l));
        let mut roots = HashSet::new();
        st.mem.values().for_each(|v| collect_roots(v, &mut roots));
        for r in roots {
            if let Root::Ext(s) = r {
                if let Some((_, b, e)) = self.part(s) {
                    l.push(e.sub(&b));
                }
            }
        }
        for x in l {
            if !st.facts.ge(&self.cx.tm, &x) {
                st.facts.add(&Atom::Ge(x), &self.cx.tm);
            }
        }
    }

    fn normalise(&self, st: &mut State<'tcx>) {
        let cx = self.cx;
        if st.trace.len() > 14 {
            let n = st.trace.len() - 14;
            st.trace.drain(0..n);
        }
        // dead locals
        let n = st.frames.len();
        for d in 0..n {
            let (body, bb) = match &st.frames[d].kind {
                FrameKind::Mir { body, bb, .. } => (body.clone(), *bb),
                FrameKind::Drain { .. } => continue,
            };
            let at = if d + 1 < n { st.frames[d + 1].target.unwrap_or(bb) } else { bb };
            let live = &body.live[at.as_usize()];
            let dead: Vec<Root> = st
                .mem
                .range(Root::Loc(d as u32, 0)..=Root::Loc(d as u32, 399_999))
                .filter(|(r, _)| matches!(r, Root::Loc(_, l) if (*l as usize) < live.len() && !live[*l as usize]))
                .map(|x| *x.0)
                .collect();
            for r in dead {
                st.mem.remove(&r);
            }
        }
        // temporaries nobody points to
        let mut refs = HashSet::new();
        for v in st.mem.values().chain(st.g.values()) {
            collect_roots(v, &mut refs);
        }
        let top = st.frames.len() as u32 - 1;
        st.mem.retain(|r, _| match r {
            Root::Loc(d, l) if *l >= 400_000 => refs.contains(r) || *d != top,
            _ => true,
        });
        // solved form everywhere
        let facts = st.facts.clone();
        let red = |l: &Lin| facts.reduce(l);
        for v in st.mem.values_mut().chain(st.g.values_mut()) {
            *v = self.red_parts(&map_lin(v, &red), &red);
        }
        for l in st.off.values_mut() {
            *l = red(l);
        }
        for i in st.iters.values_mut() {
            i.base = red(&i.base);
            i.pos = red(&i.pos);
            i.len = red(&i.len);
        }
        let mut syms = HashSet::new();
        for v in st.mem.values().chain(st.g.values()) {
            cx.collect_syms(v, &mut syms);
        }
        st.iters.retain(|s, _| syms.contains(s));
        let syms = self.live_syms(st);
        let keep = |s: &Sym| cx.tm.entry(*s) || syms.contains(s);
        let ge: Vec<Lin> = st.facts.ge.iter().map(|l| facts.reduce(l)).collect();
        st.facts.ge = eliminate(ge, &keep, &cx.tm);
        st.facts.ne = st.facts.ne.iter().map(|l| facts.reduce(l)).filter(|l| l.t.iter().all(|x| keep(&x.0)) && l.is_const().is_none()).collect();
        st.facts.eqs = st.facts.eqs.iter().filter(|(s, l)| keep(s) && l.t.iter().all(|x| keep(&x.0))).map(|(s, l)| (*s, l.clone())).collect();
        st.facts.b.retain(|s, _| keep(s));
        st.steps += 1;
    }

    fn red_parts(&self, v: &Val<'tcx>, f: &dyn Fn(&Lin) -> Lin) -> Val<'tcx> {
        let mut l = vec![];
        self.val_slots(v, &mut l);
        let mut it = l.into_iter().map(|s| match s {
            Slot::L(l) => Slot::L(f(&l)),
            s => s,
        });
        self.re_val(v, &mut it)
    }
    fn live_syms(&self, st: &State<'tcx>) -> HashSet<Sym> {
        let mut syms = HashSet::new();
        for v in st.mem.values().chain(st.g.values()) {
            self.cx.collect_syms(v, &mut syms);
        }
        for l in st.off.values() {
            syms.extend(l.t.iter().map(|x| x.0));
        }
        for i in st.iters.values() {
            for l in [&i.base, &i.pos, &i.len] {
                syms.extend(l.t.iter().map(|x| x.0));
            }
        }
        syms
    }

    fn key(&self, st: &State<'tcx>) -> String {
        let tm = &self.cx.tm;
        let mut o = String::new();
        for f in &st.frames {
            match &f.kind {
                FrameKind::Mir { body, bb, .. } => {
                    o.push_str(&format!("{}#{};", body.name, bb.as_u32()));
                }
                FrameKind::Drain { pc, .. } => o.push_str(&format!("drain{pc};")),
            }
        }
        o.push_str(st.part.as_deref().unwrap_or(""));
        o.push('|');
        for (r, v) in &st.mem {
            match r {
                Root::Loc(d, l) => o.push_str(&format!("{d}.{l}:")),
                Root::Ext(s) => o.push_str(&format!("{}:", tm.show_sym(*s))),
            }
            self.shape(v, &mut o);
            o.push(' ');
        }
        o.push('|');
        for l in &st.looks {
            o.push_str(&format!("{}{};", tm.show_sym(l.0), l.1));
        }
        o.push('|');
        for s in st.off.keys() {
            o.push_str(&tm.show_sym(*s));
        }
        o.push('|');
        for s in st.iters.keys() {
            o.push_str(&tm.show_sym(*s));
        }
        o.push('|');
        for s in &st.held {
            o.push_str(&tm.show_sym(*s));
        }
        o.push('|');
        for (k, v) in &st.g {
            o.push_str(k);
            o.push(':');
            self.shape(v, &mut o);
        }
        o.push('|');
        let is_discr = |s: &Sym| matches!(tm.kind(*s), SymKind::App(h, _) if &*h == "discr");
        for (s, b) in &st.facts.b {
            if tm.entry(*s) {
                o.push_str(&format!("{}{} ", if *b { "" } else { "!" }, tm.show_sym(*s)));
            }
        }
        for (s, l) in &st.facts.eqs {
            if tm.entry(*s) && is_discr(s) && l.is_const().is_some() {
                o.push_str(&format!("{}={} ", tm.show_sym(*s), l.c));
            }
        }
        for l in &st.facts.ne {
            if l.t.iter().all(|x| tm.entry(x.0) && is_discr(&x.0)) {
                o.push_str(&format!("{}!=0 ", tm.show_lin(l)));
            }
        }
        o
    }
    fn shape(&self, v: &Val<'tcx>, o: &mut String) {
        match v {
            Val::Undef => o.push('U'),
            Val::Lin(_) => o.push('L'),
            Val::Bool(Cond::K(b)) => o.push(if *b { 'T' } else { 'F' }),
            Val::Bool(_) => o.push('C'),
            Val::Agg(v, f) => {
                o.push_str(&format!("{v}["));
                for x in f.iter() {
                    self.shape(x, o);
                }
                o.push(']');
            }
            Val::Sym(..) => o.push('S'),
            Val::Ref(p) => {
                match p.root {
                    Root::Loc(d, l) => o.push_str(&format!("&{d}.{l}")),
                    Root::Ext(s) if self.part(s).is_some() => {
                        let (w, ..) = self.part(s).unwrap();
                        o.push_str(&format!("&part of {}", self.cx.tm.show(&w)))
                    }
                    Root::Ext(s) if self.cx.tm.entry(s) => o.push_str(&format!("&{s}")),
                    Root::Ext(_) => o.push_str("&E"),
                }
                for e in &p.path {
                    match e {
                        PE::Field(v, i, _) => o.push_str(&format!(".{v}.{i}")),
                        PE::Index(..) => o.push_str("[L]"),
                    }
                }
            }
            Val::Fun(t) => o.push_str(&format!("f{t}")),
            Val::Str(s) => o.push_str(&format!("{s:?}")),
            Val::It { base, pos, end, .. } => {
                o.push('I');
                // a handful of listed items: one state per item
                if let (Some(p), Some(e)) = (pos.is_const(), end.is_const()) {
                    if e - p <= 8 && e <= 8 {
                        o.push_str(&format!("{p}/{e}"));
                    }
                }
                self.shape(&Val::Ref(base.clone()), o);
            }
            Val::Coll(..) => o.push('V'),
            Val::Arr(..) => o.push('A'),
        }
    }

    fn slots(&self, st: &State<'tcx>) -> Vec<Slot<'tcx>> {
        let mut o = vec![];
        for v in st.mem.values() {
            self.val_slots(v, &mut o);
        }
        for l in st.off.values() {
            o.push(Slot::L(l.clone()));
        }
        for i in st.iters.values() {
            o.push(Slot::L(i.base.clone()));
            o.push(Slot::L(i.pos.clone()));
            o.push(Slot::L(i.len.clone()));
        }
        for v in st.g.values() {
            self.val_slots(v, &mut o);
        }
        o
    }
    /// a part of a sequence the function was given
    fn part(&self, s: Sym) -> Option<(Val<'tcx>, Lin, Lin)> {
        let (w, b, e) = self.cx.part_bounds(s)?;
        match &w {
            Val::Sym(x, _) if self.cx.tm.entry(*x) => Some((w, b, e)),
            _ => None,
        }
    }
    fn ptr_slots(&self, p: &Ptr<'tcx>, o: &mut Vec<Slot<'tcx>>) {
        if let Root::Ext(s) = p.root {
            if let Some((_, b, e)) = self.part(s) {
                o.push(Slot::L(b));
                o.push(Slot::L(e));
            } else if !self.cx.tm.entry(s) {
                o.push(Slot::P(s));
            }
        }
        for e in &p.path {
            if let PE::Index(l, _) = e {
                o.push(Slot::L(l.clone()));
            }
        }
    }
    fn val_slots(&self, v: &Val<'tcx>, o: &mut Vec<Slot<'tcx>>) {
        match v {
            Val::Lin(l) => o.push(Slot::L(l.clone())),
            Val::Bool(c @ Cond::A(_)) => o.push(Slot::B(c.clone())),
            Val::Agg(_, f) => f.iter().for_each(|x| self.val_slots(x, o)),
            Val::Sym(s, t) => o.push(Slot::S(*s, Some(*t))),
            Val::Ref(p) => self.ptr_slots(p, o),
            Val::It { base, pos, end, .. } => {
                self.ptr_slots(base, o);
                o.push(Slot::L(pos.clone()));
                o.push(Slot::L(end.clone()));
            }
            Val::Coll(s, l) | Val::Arr(s, l) => {
                o.push(Slot::S(*s, None));
                o.push(Slot::L(l.clone()));
            }
            _ => {}
        }
    }
    /// Rebuild a state from slots (inverse of `slots`).
    fn rebuild(&self, st: &mut State<'tcx>, slots: Vec<Slot<'tcx>>) {
        let mut it = slots.into_iter();
        let mem = std::mem::take(&mut st.mem);
        st.mem = mem.into_iter().map(|(r, v)| (r, self.re_val(&v, &mut it))).collect();
        for l in st.off.values_mut() {
            if let Some(Slot::L(x)) = it.next() {
                *l = x;
            }
        }
        for i in st.iters.values_mut() {
            for l in [&mut i.base, &mut i.pos, &mut i.len] {
                if let Some(Slot::L(x)) = it.next() {
                    *l = x;
                }
            }
        }
        let g = std::mem::take(&mut st.g);
        st.g = g.into_iter().map(|(r, v)| (r, self.re_val(&v, &mut it))).collect();
    }
    fn re_ptr(&self, p: &Ptr<'tcx>, it: &mut impl Iterator<Item = Slot<'tcx>>) -> Ptr<'tcx> {
        let mut p = p.clone();
        if let Root::Ext(s) = p.root {
            if let Some((w, b, e)) = self.part(s) {
                if let (Some(Slot::L(b1)), Some(Slot::L(e1))) = (it.next(), it.next()) {
                    if b1 != b || e1 != e {
                        let n = self.cx.tm.app("sub", vec![w, Val::Lin(b1), Val::Lin(e1)], self.cx.tm.nonneg(s));
                        self.cx.tm.set_ext_ty(n, self.cx.tm.ext_ty(s));
                        p.root = Root::Ext(n);
                    }
                }
            } else if !self.cx.tm.entry(s) {
                if let Some(Slot::P(n)) = it.next() {
                    p.root = Root::Ext(n);
                }
            }
        }
        for e in p.path.iter_mut() {
            if let PE::Index(l, _) = e {
                if let Some(Slot::L(x)) = it.next() {
                    *l = x;
                }
            }
        }
        p
    }
    fn re_val(&self, v: &Val<'tcx>, it: &mut impl Iterator<Item = Slot<'tcx>>) -> Val<'tcx> {
        match v {
            Val::Lin(_) => match it.next() {
                Some(Slot::L(l)) => Val::Lin(l),
                _ => Val::Undef,
            },
            Val::Bool(Cond::A(_)) => match it.next() {
                Some(Slot::B(c)) => Val::Bool(c),
                _ => Val::Undef,
            },
            Val::Agg(k, f) => Val::Agg(*k, Rc::new(f.iter().map(|x| self.re_val(x, it)).collect())),
            Val::Sym(_, t) => match it.next() {
                Some(Slot::S(s, _)) => Val::Sym(s, *t),
                _ => Val::Undef,
            },
            Val::Ref(p) => Val::Ref(self.re_ptr(p, it)),
            Val::It { base, elem, .. } => {
                let base = self.re_ptr(base, it);
                let (Some(Slot::L(pos)), Some(Slot::L(end))) = (it.next(), it.next()) else { return Val::Undef };
                Val::It { base, elem: *elem, pos, end }
            }
            Val::Coll(..) | Val::Arr(..) => {
                let (Some(Slot::S(s, _)), Some(Slot::L(l))) = (it.next(), it.next()) else { return Val::Undef };
                if matches!(v, Val::Coll(..)) { Val::Coll(s, l) } else { Val::Arr(s, l) }
            }
            v => v.clone(),
        }
    }
    fn collect_phis(&self, st: &State<'tcx>, o: &mut BTreeSet<Sym>) {
        let mut add = |s: Sym| {
            // unknowns of the path that led here stand for whatever a later path puts in their place
            if let SymKind::Phi(_) | SymKind::Fresh(..) = self.cx.tm.kind(s) {
                o.insert(s);
            }
        };
        for s in self.slots(st) {
            match s {
                Slot::L(l) => l.t.iter().for_each(|x| add(x.0)),
                Slot::B(Cond::A(a)) => match a {
                    Atom::Ge(l) | Atom::Eq(l) | Atom::Ne(l) => l.t.iter().for_each(|x| add(x.0)),
                    Atom::B(s) | Atom::NB(s) => add(s),
                },
                Slot::B(_) => {}
                Slot::S(s, _) | Slot::P(s) => add(s),
            }
        }
    }

    fn included(&self, st: &State<'tcx>, h: &Head<'tcx>) -> bool {
        let hs = self.slots(&h.st);
        let ss = self.slots(st);
        if hs.len() != ss.len() {
            return false;
        }
        let tm = &self.cx.tm;
        let mut th: Subst<'tcx> = Subst::default();
        let is_phi = |s: Sym| h.phis.contains(&s);
        // symbols and booleans first
        for (a, b) in hs.iter().zip(&ss) {
            match (a, b) {
                (Slot::S(x, t), Slot::S(y, _)) => {
                    if is_phi(*x) {
                        let v = Val::Sym(*y, t.unwrap_or(self.cx.tcx.types.unit));
                        match th.sym.get(x) {
                            Some(Val::Sym(o, _)) if o == y => {}
                            Some(_) => return false,
                            None => {
                                th.sym.insert(*x, v);
                            }
                        }
                    } else if x != y {
                        return false;
                    }
                }
                (Slot::P(x), Slot::P(y)) => {
                    if is_phi(*x) {
                        match th.root.get(x) {
                            Some(p) if p.root == Root::Ext(*y) => {}
                            Some(_) => return false,
                            None => {
                                th.root.insert(*x, Ptr::root(Root::Ext(*y)));
                                th.sym.insert(*x, Val::Sym(*y, self.cx.tcx.types.unit));
                            }
                        }
                    } else if x != y {
                        return false;
                    }
                }
                (Slot::B(Cond::A(Atom::B(x))), Slot::B(c)) if is_phi(*x) => match th.cond.get(x) {
                    Some(o) if o == c => {}
                    Some(_) => return false,
                    None => {
                        th.cond.insert(*x, c.clone());
                    }
                },
                (Slot::B(x), Slot::B(y)) => {
                    if x != y {
                        return false;
                    }
                }
                (Slot::L(_), Slot::L(_)) => {}
                _ => return false,
            }
        }
        // linear slots
        let mut todo: Vec<(Lin, Lin)> = hs
            .iter()
            .zip(&ss)
            .filter_map(|(a, b)| if let (Slot::L(a), Slot::L(b)) = (a, b) { Some((a.clone(), b.clone())) } else { None })
            .collect();
        loop {
            let mut progress = false;
            let mut rest = vec![];
            for (a, b) in todo {
                let un: Vec<(Sym, i128)> =
                    a.t.iter().filter(|x| is_phi(x.0) && !th.lin.contains_key(&x.0)).cloned().collect();
                // unknowns inside a function's arguments have to be settled first
                let deep = a.t.iter().any(|x| !is_phi(x.0) && self.deep_unsolved(x.0, h, &th));
                if deep {
                    rest.push((a, b));
                } else if un.is_empty() {
                    let a2 = self.sub_lin(&a, &th);
                    if !st.facts.entails(tm, &Atom::Eq(a2.sub(&b))) {
                        return false;
                    }
                    progress = true;
                } else if un.len() == 1 && un[0].1.abs() == 1 {
                    // phi = +-(b - rest)
                    let (s, k) = un[0];
                    let mut r = a.clone();
                    r.t.retain(|x| x.0 != s);
                    let r = self.sub_lin(&r, &th);
                    let v = st.facts.reduce(&b.sub(&r).scale(k));
                    if tm.nonneg(s) && !st.facts.ge(tm, &v) {
                        return false;
                    }
                    th.lin.insert(s, v);
                    progress = true;
                } else {
                    rest.push((a, b));
                }
            }
            todo = rest;
            if todo.is_empty() {
                break;
            }
            if !progress {
                // any substitution will do, so long as what follows from it is checked: an unknown
                // that occurs only together with others stands for itself
                let s = todo.iter().find_map(|(a, _)| {
                    a.t.iter().map(|x| x.0).find(|s| is_phi(*s) && !th.lin.contains_key(s))
                });
                match s {
                    Some(s) => {
                        th.lin.insert(s, Lin::s(s));
                    }
                    None => return false,
                }
            }
        }
        self.facts_hold(&h.st.facts, &th, &st.facts)
    }

    fn deep_unsolved(&self, s: Sym, h: &Head<'tcx>, th: &Subst<'tcx>) -> bool {
        let tm = &self.cx.tm;
        if tm.entry(s) {
            return false;
        }
        let SymKind::App(_, a) = tm.kind(s) else { return false };
        let mut o = HashSet::new();
        for v in &a {
            self.cx.collect_syms(v, &mut o);
        }
        o.iter().any(|x| h.phis.contains(x) && !th.lin.contains_key(x) && !th.sym.contains_key(x) && !th.cond.contains_key(x))
    }
    fn facts_hold(&self, f: &Facts, th: &Subst<'tcx>, by: &Facts) -> bool {
        let tm = &self.cx.tm;
        for l in &f.ge {
            if !by.entails(tm, &Atom::Ge(self.sub_lin(l, th))) {
                return false;
            }
        }
        for (s, l) in &f.eqs {
            let x = Lin::s(*s).sub(l);
            if !by.entails(tm, &Atom::Eq(self.sub_lin(&x, th))) {
                return false;
            }
        }
        for l in &f.ne {
            if !by.entails(tm, &Atom::Ne(self.sub_lin(l, th))) {
                return false;
            }
        }
        for (s, v) in &f.b {
            let a = self.sub_bool(*s, *v, th);
            match a {
                Cond::K(b) => {
                    if !b {
                        return false;
                    }
                }
                Cond::A(a) => {
                    if !by.entails(tm, &a) {
                        return false;
                    }
                }
            }
        }
        true
    }

    // ---- substitution ------------------------------------------------------------------
    fn sub_bool(&self, s: Sym, v: bool, th: &Subst<'tcx>) -> Cond {
        let c = match th.cond.get(&s) {
            Some(c) => c.clone(),
            None => Cond::A(Atom::B(self.sub_symbol(s, th))),
        };
        if v { c } else { c.not() }
    }
    fn sub_symbol(&self, s: Sym, th: &Subst<'tcx>) -> Sym {
        if let Some(Val::Sym(n, _)) = th.sym.get(&s) {
            return *n;
        }
        let tm = &self.cx.tm;
        if tm.entry(s) {
            return s;
        }
        match tm.kind(s) {
            SymKind::App(h, a) => {
                let b: Vec<Val<'tcx>> = a.iter().map(|v| self.sub_val(v, th)).collect();
                if a == b { s } else { tm.app(&h, b, tm.nonneg(s)) }
            }
            _ => s,
        }
    }
    fn sub_lin(&self, l: &Lin, th: &Subst<'tcx>) -> Lin {
        let mut r = Lin::k(l.c);
        for (s, k) in &l.t {
            let x = match th.lin.get(s) {
                Some(x) => x.clone(),
                None => Lin::s(self.sub_symbol(*s, th)),
            };
            r = r.lc(1, &x, *k);
        }
        r
    }
    fn sub_val(&self, v: &Val<'tcx>, th: &Subst<'tcx>) -> Val<'tcx> {
        match v {
            Val::Lin(l) => Val::Lin(self.sub_lin(l, th)),
            Val::Bool(Cond::A(a)) => Val::Bool(match a {
                Atom::Ge(l) => Cond::A(Atom::Ge(self.sub_lin(l, th))),
                Atom::Eq(l) => Cond::A(Atom::Eq(self.sub_lin(l, th))),
                Atom::Ne(l) => Cond::A(Atom::Ne(self.sub_lin(l, th))),
                Atom::B(s) => self.sub_bool(*s, true, th),
                Atom::NB(s) => self.sub_bool(*s, false, th),
            }),
            Val::Agg(k, f) => Val::Agg(*k, Rc::new(f.iter().map(|x| self.sub_val(x, th)).collect())),
            Val::Sym(s, t) => Val::Sym(self.sub_symbol(*s, th), *t),
            Val::Ref(p) => Val::Ref(self.sub_ptr(p, th)),
            Val::It { base, elem, pos, end } => Val::It {
                base: self.sub_ptr(base, th),
                elem: *elem,
                pos: self.sub_lin(pos, th),
                end: self.sub_lin(end, th),
            },
            Val::Coll(s, l) => Val::Coll(self.sub_symbol(*s, th), self.sub_lin(l, th)),
            Val::Arr(s, l) => Val::Arr(self.sub_symbol(*s, th), self.sub_lin(l, th)),
            v => v.clone(),
        }
    }
    fn sub_ptr(&self, p: &Ptr<'tcx>, th: &Subst<'tcx>) -> Ptr<'tcx> {
        let mut p = p.clone();
        if let Root::Ext(s) = p.root {
            match th.root.get(&s) {
                Some(q) => p.root = q.root,
                None => {
                    let n = self.sub_symbol(s, th);
                    if n != s {
                        let t = self.cx.tm.ext_ty(s);
                        self.cx.tm.set_ext_ty(n, t);
                        p.root = Root::Ext(n);
                    }
                }
            }
        }
        for e in p.path.iter_mut() {
            if let PE::Index(l, _) = e {
                *l = self.sub_lin(l, th);
            }
        }
        p
    }

    // ---- join --------------------------------------------------------------------------
    fn join(&self, a: &State<'tcx>, b: &State<'tcx>, joins: u32) -> State<'tcx> {
        let cx = self.cx;
        let tm = &cx.tm;
        let sa = self.slots(a);
        let sb = self.slots(b);
        let mut out: Vec<Slot<'tcx>> = vec![];
        let mut lins: Vec<(Lin, Lin, Lin)> = vec![]; // (a, b, joined)
        let mut ta: Subst<'tcx> = Subst::default();
        let mut tb: Subst<'tcx> = Subst::default();
        let mut pairs: HashMap<(Sym, Sym), Sym> = HashMap::new();
        let mut newphi: Vec<Sym> = vec![];
        // where two neighbouring numbers (a position and a length) end together
        let mut ends: Vec<(Lin, Lin, Lin)> = vec![];
        let mut prev: Option<(Lin, Lin, Lin)> = None;
        for (x, y) in sa.into_iter().zip(sb) {
            let before = prev.take();
            match (x, y) {
                (Slot::L(x), Slot::L(y)) => {
                    let x = a.facts.reduce(&x);
                    let y = b.facts.reduce(&y);
                    let j = if x == y {
                        x.clone()
                    } else {
                        let dx = y.sub(&x);
                        let mut found = lins.iter().find(|(px, py, _)| *px == x && *py == y).map(|t| t.2.clone());
                        for (px, py, pj) in &lins {
                            if found.is_some() {
                                break;
                            }
                            if px == py {
                                continue;
                            }
                            let d = py.sub(px);
                            // moving alike by chance, once more each time round
                            if joins > 3 && !x.sub(px).t.iter().all(|t| tm.entry(t.0)) {
                                continue;
                            }
                            if d == dx {
                                found = Some(pj.add(&x.sub(px)));
                                break;
                            }
                            if d == dx.neg() {
                                found = Some(x.add(px).sub(pj));
                                break;
                            }
                        }
                        if found.is_none() {
                            found = ends.iter().find(|(px, py, _)| *px == x && *py == y).map(|t| t.2.clone());
                        }
                        if let (None, Some((bx, by, bj))) = (&found, &before) {
                            let (ex, ey) = (bx.add(&x), by.add(&y));
                            for (px, py, pj) in lins.iter().chain(&ends) {
                                let d = ex.sub(px);
                                if px != py && d == ey.sub(py) && d.t.iter().all(|t| tm.entry(t.0)) {
                                    found = Some(pj.add(&d).sub(bj));
                                    break;
                                }
                            }
                        }
                        found.unwrap_or_else(|| {
                            let nn = a.facts.ge(tm, &x) && b.facts.ge(tm, &y);
                            let s = tm.phi(nn);
                            ta.lin.insert(s, x.clone());
                            tb.lin.insert(s, y.clone());
                            newphi.push(s);
                            Lin::s(s)
                        })
                    };
                    if let Some((bx, by, bj)) = before {
                        ends.push((bx.add(&x), by.add(&y), bj.add(&j)));
                    }
                    prev = Some((x.clone(), y.clone(), j.clone()));
                    lins.push((x, y, j.clone()));
                    out.push(Slot::L(j));
                }
                (Slot::B(x), Slot::B(y)) => {
                    if x == y {
                        out.push(Slot::B(x));
                    } else {
                        let s = tm.phi(false);
                        ta.cond.insert(s, x);
                        tb.cond.insert(s, y);
                        out.push(Slot::B(Cond::A(Atom::B(s))));
                    }
                }
                (Slot::S(x, t), Slot::S(y, _)) => {
                    if x == y {
                        out.push(Slot::S(x, t));
                    } else {
                        let s = *pairs.entry((x, y)).or_insert_with(|| tm.phi(false));
                        let ty = t.unwrap_or(cx.tcx.types.unit);
                        ta.sym.insert(s, Val::Sym(x, ty));
                        tb.sym.insert(s, Val::Sym(y, ty));
                        out.push(Slot::S(s, t));
                    }
                }
                (Slot::P(x), Slot::P(y)) => {
                    if x == y {
                        out.push(Slot::P(x));
                    } else {
                        let s = *pairs.entry((x, y)).or_insert_with(|| tm.phi(false));
                        tm.set_ext_ty(s, tm.ext_ty(x));
                        ta.root.insert(s, Ptr::root(Root::Ext(x)));
                        tb.root.insert(s, Ptr::root(Root::Ext(y)));
                        ta.sym.insert(s, Val::Sym(x, cx.tcx.types.unit));
                        tb.sym.insert(s, Val::Sym(y, cx.tcx.types.unit));
                        out.push(Slot::P(s));
                    }
                }
                (x, _) => out.push(x),
            }
        }
        let mut st = a.clone();
        self.rebuild(&mut st, out);
        // facts: candidates from both sides, kept when they hold on both
        let mut cand: Vec<Atom> = vec![];
        let gen_ = |f: &Facts, th: &Subst<'tcx>, cand: &mut Vec<Atom>| {
            let mut base: Vec<(Lin, u8)> = vec![];
            base.extend(f.ge.iter().map(|l| (l.clone(), 0)));
            base.extend(f.eqs.iter().map(|(s, l)| (Lin::s(*s).sub(l), 1)));
            base.extend(f.ne.iter().map(|l| (l.clone(), 2)));
            let mk = |l: Lin, k: u8| match k {
                0 => Atom::Ge(l),
                1 => Atom::Eq(l),
                _ => Atom::Ne(l),
            };
            for (l, k) in base {
                cand.push(mk(l.clone(), k));
                let mut cur = vec![l];
                for _round in 0..2 {
                    let mut next = vec![];
                    for l in &cur {
                        for p in &newphi {
                            let x = &th.lin[p];
                            for (s, c) in &x.t {
                                if c.abs() == 1 && l.coef(*s) != 0 {
                                    // s = c*(phi - rest)
                                    let mut rest = x.clone();
                                    rest.t.retain(|q| q.0 != *s);
                                    let by = Lin::s(*p).sub(&rest).scale(*c);
                                    next.push(l.subst(*s, &by));
                                }
                            }
                        }
                    }
                    next.truncate(64);
                    for n in &next {
                        cand.push(mk(n.clone(), k));
                    }
                    cur = next;
                }
            }
            for (s, v) in &f.b {
                cand.push(if *v { Atom::B(*s) } else { Atom::NB(*s) });
            }
        };
        if joins <= 24 {
            gen_(&a.facts, &ta, &mut cand);
        } else {
            // what is known of the arguments can only become less
            let given = |l: &&Lin| l.t.iter().all(|x| tm.entry(x.0));
            cand.extend(a.facts.ge.iter().filter(given).map(|l| Atom::Ge(l.clone())));
            cand.extend(a.facts.ne.iter().filter(given).map(|l| Atom::Ne(l.clone())));
            cand.extend(a.facts.eqs.iter().map(|(s, l)| Lin::s(*s).sub(l)).filter(|l| given(&l)).map(Atom::Eq));
        }
        if joins <= 6 {
            gen_(&b.facts, &tb, &mut cand);
            // orderings between slots
            let terms: Vec<(Lin, Lin, Lin)> = {
                let mut v: Vec<(Lin, Lin, Lin)> = vec![];
                for t in &lins {
                    if !v.iter().any(|x| x.2 == t.2) {
                        v.push(t.clone());
                    }
                }
                v.truncate(24);
                for t in &ends {
                    if v.len() < 32 && t.0 != t.1 && !v.iter().any(|x| x.2 == t.2) {
                        v.push(t.clone());
                    }
                }
                v
            };
            for x in &terms {
                for y in &terms {
                    if x.2 != y.2 && (x.0 != x.1 || y.0 != y.1) {
                        cand.push(Atom::Ge(x.2.sub(&y.2)));
                    }
                }
                if x.0 != x.1 {
                    for k in [0, 1] {
                        cand.push(Atom::Ge(x.2.addk(-k)));
                    }
                }
            }
            // the new values against the lengths and constants the function was given
            let mut given: Vec<Sym> = vec![];
            for f in [&a.facts, &b.facts] {
                for l in f.ge.iter().chain(f.ne.iter()) {
                    for (s, _) in &l.t {
                        if tm.entry(*s) && tm.nonneg(*s) && !given.contains(s) {
                            given.push(*s);
                        }
                    }
                }
            }
            given.truncate(8);
            for p in &newphi {
                for g in &given {
                    cand.push(Atom::Ge(Lin::s(*g).sub(&Lin::s(*p))));
                    cand.push(Atom::Ge(Lin::s(*p).sub(&Lin::s(*g))));
                }
            }
            // constants against the new values
            for p in &newphi {
                if let Some(k) = ta.lin[p].is_const() {
                    cand.push(Atom::Ge(Lin::s(*p).addk(-k)));
                    cand.push(Atom::Ge(Lin::s(*p).neg().addk(k)));
                }
            }
        }
        let mut facts = Facts::default();
        let live = self.live_syms(&st);
        let keep = |s: &Sym| tm.entry(*s) || live.contains(s);
        let mut done = HashSet::new();
        for c in cand {
            if !done.insert(c.clone()) {
                continue;
            }
            let named = match &c {
                Atom::Ge(l) | Atom::Eq(l) | Atom::Ne(l) => l.t.iter().all(|x| keep(&x.0)),
                Atom::B(s) | Atom::NB(s) => keep(s),
            };
            if !named {
                continue;
            }
            let (x, y) = (self.sub_atom(&c, &ta), self.sub_atom(&c, &tb));
            let holds = |f: &Facts, c: &Cond| match c {
                Cond::K(b) => *b,
                Cond::A(a) => f.entails(tm, a),
            };
            if holds(&a.facts, &x) && holds(&b.facts, &y) && !facts.entails(tm, &c) {
                facts.add(&c, tm);
            }
        }
        st.facts = facts;
        st.trace = b.trace.clone();
        st
    }
    fn sub_atom(&self, a: &Atom, th: &Subst<'tcx>) -> Cond {
        match a {
            Atom::Ge(l) => Cond::A(Atom::Ge(self.sub_lin(l, th))),
            Atom::Eq(l) => Cond::A(Atom::Eq(self.sub_lin(l, th))),
            Atom::Ne(l) => Cond::A(Atom::Ne(self.sub_lin(l, th))),
            Atom::B(s) => self.sub_bool(*s, true, th),
            Atom::NB(s) => self.sub_bool(*s, false, th),
        }
    }
}

fn collect_roots<'tcx>(v: &Val<'tcx>, o: &mut HashSet<Root>) {
    match v {
        Val::Ref(p) => {
            o.insert(p.root);
        }
        Val::It { base, .. } => {
            o.insert(base.root);
        }
        Val::Agg(_, f) => f.iter().for_each(|x| collect_roots(x, o)),
        _ => {}
    }
}

pub fn map_lin<'tcx>(v: &Val<'tcx>, f: &dyn Fn(&Lin) -> Lin) -> Val<'tcx> {
    let mp = |p: &Ptr<'tcx>| {
        let mut p = p.clone();
        for e in p.path.iter_mut() {
            if let PE::Index(l, _) = e {
                *l = f(l);
            }
        }
        p
    };
    match v {
        Val::Lin(l) => Val::Lin(f(l)),
        Val::Agg(k, x) => Val::Agg(*k, Rc::new(x.iter().map(|y| map_lin(y, f)).collect())),
        Val::Ref(p) => Val::Ref(mp(p)),
        Val::It { base, elem, pos, end } => Val::It { base: mp(base), elem: *elem, pos: f(pos), end: f(end) },
        Val::Coll(s, l) => Val::Coll(*s, f(l)),
        Val::Arr(s, l) => Val::Arr(*s, f(l)),
        v => v.clone(),
    }
}

/// Remove symbols that are no longer needed by pairwise combination.
fn eliminate<'tcx>(mut ge: Vec<Lin>, keep: &dyn Fn(&Sym) -> bool, tm: &Terms<'tcx>) -> Vec<Lin> {
    loop {
        let mut victim = None;
        for l in &ge {
            for (s, _) in &l.t {
                if !keep(s) {
                    victim = Some(*s);
                    break;
                }
            }
            if victim.is_some() {
                break;
            }
        }
        let Some(s) = victim else { break };
        let (with, mut rest): (Vec<Lin>, Vec<Lin>) = ge.into_iter().partition(|l| l.coef(s) != 0);
        let mut pos: Vec<Lin> = with.iter().filter(|l| l.coef(s) > 0).cloned().collect();
        let neg: Vec<Lin> = with.iter().filter(|l| l.coef(s) < 0).cloned().collect();
        if tm.nonneg(s) {
            pos.push(Lin::s(s));
        }
        if pos.len() * neg.len() <= 64 {
            for p in &pos {
                for n in &neg {
                    let r = p.scale(-n.coef(s)).add(&n.scale(p.coef(s)));
                    if !tm.lin_nonneg(&r) && !rest.contains(&r) {
                        rest.push(r);
                    }
                }
            }
        }
        ge = rest;
    }
    ge.dedup();
    ge
}

impl<'tcx> Cx<'tcx> {
    pub fn collect_syms(&self, v: &Val<'tcx>, o: &mut HashSet<Sym>) {
        fn sym<'tcx>(cx: &Cx<'tcx>, s: Sym, o: &mut HashSet<Sym>) {
            if o.insert(s) {
                if let SymKind::App(_, a) = cx.tm.kind(s) {
                    for v in &a {
                        cx.collect_syms(v, o);
                    }
                }
            }
        }
        let lin = |l: &Lin, o: &mut HashSet<Sym>| l.t.iter().for_each(|x| sym(self, x.0, o));
        let ptr = |p: &Ptr<'tcx>, o: &mut HashSet<Sym>| {
            if let Root::Ext(s) = p.root {
                sym(self, s, o);
            }
            for e in &p.path {
                if let PE::Index(l, _) = e {
                    l.t.iter().for_each(|x| sym(self, x.0, o));
                }
            }
        };
        match v {
            Val::Lin(l) => lin(l, o),
            Val::Bool(Cond::A(a)) => match a {
                Atom::Ge(l) | Atom::Eq(l) | Atom::Ne(l) => lin(l, o),
                Atom::B(s) | Atom::NB(s) => sym(self, *s, o),
            },
            Val::Agg(_, f) => f.iter().for_each(|x| self.collect_syms(x, o)),
            Val::Sym(s, _) => sym(self, *s, o),
            Val::Ref(p) => ptr(p, o),
            Val::It { base, pos, end, .. } => {
                ptr(base, o);
                lin(pos, o);
                lin(end, o);
            }
            Val::Coll(s, l) | Val::Arr(s, l) => {
                sym(self, *s, o);
                lin(l, o);
            }
            _ => {}
        }
    }
}

pub fn initial<'tcx>(cx: &Cx<'tcx>, body: Rc<BodyInfo<'tcx>>) -> State<'tcx> {
    let mut st = State {
        frames: vec![],
        mem: BTreeMap::new(),
        facts: Facts::default(),
        off: BTreeMap::new(),
        iters: BTreeMap::new(),
        held: vec![],
        looks: vec![],
        dyns: vec![],
        g: BTreeMap::new(),
        trace: vec![],
        tape: vec![],
        tpos: 0,
        steps: 0,
        part: None,
        wid: false,
        ticks: 0,
        turns: vec![],
    };
    let n = body.body.arg_count;
    let args: Vec<Val<'tcx>> = (1..=n)
        .map(|i| {
            let t = body.body.local_decls[rustc_middle::mir::Local::from_usize(i)].ty;
            let s = cx.tm.intern(SymKind::Arg(i as u32), false);
            cx.mk(s, t)
        })
        .collect();
    let _ = cx.push_frame(&mut st, body, args, None, None);
    st
}
