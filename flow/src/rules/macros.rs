//! C30: the value built by one use of a macro, as a class of characters and a number of times.
use crate::interp::*;
use crate::oracle::*;
use crate::term::*;
use rustc_middle::ty;

pub fn rule<'tcx>(cx: &Cx<'tcx>, f: &Fun<'tcx>) -> Option<Rule<'tcx>> {
    let name = cx.tcx.def_path_str(f.did);
    let (m, n) = name.rsplit_once("::")?;
    if !m.ends_with(crate::APPENDED) {
        return None;
    }
    let ty::Tuple(l) = cx.root_ret.kind() else { return None };
    let n = n.to_string();
    let parts = l.len();
    Some(Rule::new("C30", &format!("macro {n}"), move |o| {
        let Val::Agg(_, f) = o.ret.clone() else { return o.undecided("value") };
        o.cx.obligation("class");
        let got = o.truth(&f[0])?;
        let want = o.truth(&f[1])?;
        if got != want {
            o.bad(if got { "the value admits a character its notation does not name" } else { "the value rejects a character its notation names" });
        }
        if parts == 4 {
            o.cx.obligation("times");
            let (Val::Agg(_, a), Val::Agg(_, b)) = (&f[2], &f[3]) else { return o.undecided("number of times") };
            for i in 0..2 {
                match (a[i].lin().and_then(|x| x.is_const()), b[i].lin().and_then(|x| x.is_const())) {
                    (Some(x), Some(y)) if x == y => {}
                    (Some(_), Some(_)) => o.bad("the value repeats another number of times than its notation says"),
                    _ => return o.undecided("number of times"),
                }
            }
        }
        Ok(())
    }))
}
