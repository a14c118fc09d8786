//! The printer: markers in, text out.
//!
//! The list of markers is symbolic: each look into it splits on what comes next. The ghost keeps the text
//! that is due; values that hold exactly this text are folded into one symbol, so that the stream has no bound.
use crate::core::*;
use crate::ir::*;
use crate::report::Report;
use crate::stdlib::FMT;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

/// the text of a token marker
const TEXT: u8 = 40;
/// everything due up to some point
const MAIN: u8 = 41;
/// the markers
const MARKS: u8 = 42;
const ALTERED: u32 = 710;
const TOKEN: u8 = 0;
const SPACE: u8 = 3;
const BLANK: u8 = 4;
const BREAK: u8 = 5;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Nothing;
impl Node for Nothing {
    fn ids(&self, _f: &mut dyn FnMut(Id)) {}
    fn rename(&mut self, _f: &dyn Fn(Id) -> Option<Id>) {}
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    level: i32,
    /// the text that is due
    exp: Vec<Val>,
    /// tokens in it
    k: i32,
    /// markers taken since the text was folded
    n: u8,
    last: u8,
    any: bool,
    ended: bool,
    folded: bool,
    /// another text was found
    bad: bool,
}
impl Ghost for H {
    fn roots(&self, _f: &mut dyn FnMut(Id)) {}
    fn rename(&mut self, _f: &dyn Fn(Id) -> Option<Id>) {}
}
pub struct Print {
    pub rep: Report,
    pub obligations: u64,
    pub ends: u64,
    pub kinds: BTreeSet<(u8, i32)>,
    /// variants of a marker: Token, Indent, Dedent, Space, Blank, Break
    mk: [u32; 6],
    most: i32,
    root: usize,
}
type S = State<Print>;

fn lit(s: &str) -> Val {
    Val::Str(Rc::from(s))
}
/// add a piece
fn put(to: &mut Vec<Val>, v: Val) {
    if let Val::Str(s) = &v {
        if s.is_empty() {
            return;
        }
        if let Some(Val::Str(a)) = to.last_mut() {
            *a = Rc::from(format!("{a}{s}"));
            return;
        }
    }
    to.push(v);
}
/// the text of a value, in pieces
fn flat(v: &Val, to: &mut Vec<Val>) -> bool {
    match v {
        Val::Str(_) | Val::G(G { t: TEXT | MAIN, .. }) | Val::Agg(ALTERED, _) => put(to, v.clone()),
        Val::Agg(FMT, p) => return p.iter().all(|x| flat(x, to)),
        Val::List(p) | Val::ListIter(p) => return p.iter().all(|x| flat(x, to)),
        _ => return false,
    }
    true
}
fn whole(v: &Val) -> Option<Vec<Val>> {
    let mut to = vec![];
    flat(v, &mut to).then_some(to)
}
fn text(p: Vec<Val>) -> Val {
    match p.len() {
        0 => lit(""),
        1 => p[0].clone(),
        _ => agg(FMT, p),
    }
}
fn sym(v: &Val) -> bool {
    match v {
        Val::G(G { t: TEXT | MAIN, .. }) => true,
        Val::Agg(_, p) | Val::List(p) | Val::ListIter(p) => p.iter().any(sym),
        Val::Ref(Ptr { b: Base::K(v), .. }) => sym(v),
        _ => false,
    }
}
fn hits(v: &Val, exp: &[Val]) -> bool {
    if whole(v).is_some_and(|w| w == exp) {
        return true;
    }
    match v {
        Val::Agg(_, p) | Val::List(p) | Val::ListIter(p) => p.iter().any(|v| hits(v, exp)),
        _ => false,
    }
}
/// what is due becomes one symbol
fn refold(v: &Val, exp: Option<&[Val]>) -> Val {
    if !sym(v) {
        return v.clone();
    }
    let main = g(MAIN, 0, 0, 0);
    if exp.is_some() && whole(v).as_deref() == exp {
        return match v {
            Val::List(_) => Val::List(Rc::new(vec![main])),
            Val::ListIter(_) => Val::ListIter(Rc::new(vec![main])),
            _ => main,
        };
    }
    match v {
        Val::Agg(FMT | ALTERED, _) => Val::Top,
        Val::Agg(k, p) => Val::Agg(*k, Rc::new(p.iter().map(|v| refold(v, exp)).collect())),
        Val::List(p) => Val::List(Rc::new(p.iter().map(|v| refold(v, exp)).collect())),
        Val::ListIter(p) => Val::ListIter(Rc::new(p.iter().map(|v| refold(v, exp)).collect())),
        _ => Val::Top,
    }
}
fn fold(st: &mut S) -> bool {
    let exp = st.g.exp.clone();
    if exp.len() == 1 && matches!(exp[0], Val::G(G { t: MAIN, .. })) {
        st.g.n = 0;
        return true;
    }
    if !exp.iter().any(sym) {
        st.g.n = 0;
        return true;
    }
    // one piece alone may be a part that is still to be added to the rest
    if exp.len() < 2 || !st.mem.values().any(|o| matches!(o, Obj::V(v) if hits(v, &exp))) {
        return false;
    }
    for o in st.mem.values_mut() {
        if let Obj::V(v) = o {
            *v = refold(v, Some(&exp));
        }
    }
    st.g.exp = vec![g(MAIN, 0, 0, 0)];
    st.g.k = 0;
    st.g.n = 0;
    st.g.folded = true;
    true
}
impl Print {
    fn next(&mut self, st: &S, site: &Site) -> Vec<(S, Option<Val>)> {
        let mut st = st.clone();
        let mut out = vec![];
        if st.g.ended {
            return vec![(st, None)];
        }
        fold(&mut st);
        if st.g.bad {
            return out;
        }
        if st.g.n > 4 {
            self.rep.und.insert(format!("{} collects its text in a way that is not followed", site.func));
            return out;
        }
        let h = st.g.clone();
        if h.level == 0 && (h.last == TOKEN || !h.any) {
            let mut s = st.clone();
            s.g.ended = true;
            out.push((s, None));
        }
        for k in 0..6u8 {
            let ok = match k {
                0 => true,
                1 => h.level < self.most,
                2 => h.level > 0,
                SPACE => h.any && h.last == TOKEN,
                _ => h.any && h.last != BREAK && h.last != BLANK,
            };
            if !ok || h.last == SPACE && matches!(k, 1 | 2) {
                continue;
            }
            let mut s = st.clone();
            let g1 = &mut s.g;
            g1.n += !matches!(k, 1 | 2) as u8;
            self.kinds.insert((k, h.level));
            self.obligations += 1;
            let margin = || "  ".repeat(h.level as usize);
            let mut v = vec![];
            match k {
                0 => {
                    let t = g(TEXT, 0, h.k, 0);
                    g1.k += 1;
                    put(&mut g1.exp, t.clone());
                    v.push(t);
                }
                1 => g1.level += 1,
                2 => g1.level -= 1,
                SPACE => put(&mut g1.exp, lit(" ")),
                BLANK => put(&mut g1.exp, lit(&format!("\n\n{}", margin()))),
                _ => put(&mut g1.exp, lit(&format!("\n{}", margin()))),
            }
            if k == 0 {
                g1.any = true;
            }
            if !matches!(k, 1 | 2) {
                g1.last = k;
            }
            out.push((s, Some(agg(self.mk[k as usize], v))));
        }
        out
    }
    /// a text that starts as what is due and goes on otherwise
    fn astray(&mut self, st: &S, site: &Site) -> bool {
        let exp = st.g.exp.clone();
        let Some(first) = exp.iter().find(|v| sym(v)) else { return false };
        let mut best: Vec<Val> = vec![];
        for o in st.mem.values() {
            let Obj::V(v) = o else { continue };
            let Some(w) = whole(v) else { continue };
            let n = |w: &[Val]| w.iter().filter(|v| !matches!(v, Val::Str(_))).count();
            if w.iter().find(|v| !matches!(v, Val::Str(_))).is_some_and(|v| v == first || matches!(v, Val::Agg(ALTERED, _))) && n(&w) > n(&best).max(1) {
                best = w;
            }
        }
        // the same beginning of both
        let cut = |p: &[Val], n: usize| {
            let mut k = 0;
            let mut r = vec![];
            for v in p {
                r.push(v.clone());
                k += !matches!(v, Val::Str(_)) as usize;
                if k == n {
                    break;
                }
            }
            r
        };
        let n = best.iter().filter(|v| !matches!(v, Val::Str(_))).count().min(exp.iter().filter(|v| !matches!(v, Val::Str(_))).count());
        if n < 2 || cut(&best, n) == cut(&exp, n) {
            return false;
        }
        self.compare(cut(&best, n), cut(&exp, n), site);
        true
    }
    fn judge(&mut self, v: &Val, st: &S, site: &Site) {
        self.ends += 1;
        let Some(act) = whole(v) else {
            self.rep.und.insert(format!("the text {} returns is not known", site.func));
            return;
        };
        self.compare(act, st.g.exp.clone(), site);
    }
    fn compare(&mut self, act: Vec<Val>, exp: Vec<Val>, site: &Site) {
        if act == exp {
            return;
        }
        let exp = &exp;
        let words = |p: &[Val]| p.iter().filter(|v| !matches!(v, Val::Str(_))).cloned().collect::<Vec<_>>();
        if words(&act) != words(exp) {
            let alt = words(&act).iter().any(|v| matches!(v, Val::Agg(ALTERED, _)));
            let m = if alt { "the text of a token is changed when it is printed" } else { "tokens are lost, repeated or moved when they are printed" };
            self.rep.add(&["C01", "C03"], "print", site, m.into());
            return;
        }
        // the white space between the same words
        let gaps = |p: &[Val]| {
            let mut r = vec![String::new()];
            for v in p {
                match v {
                    Val::Str(s) => r.last_mut().unwrap().push_str(s),
                    _ => r.push(String::new()),
                }
            }
            r
        };
        for (i, (a, e)) in gaps(&act).into_iter().zip(gaps(exp)).enumerate() {
            if a == e {
                continue;
            }
            let lines = |s: &str| s.matches('\n').count();
            if a.chars().any(|c| !c.is_whitespace()) {
                self.rep.add(&["C01", "C03"], "print", site, format!("{a:?} is printed, which is in no marker"));
            } else if lines(&a) == lines(&e) && lines(&e) > 0 {
                let (x, y) = (a.rsplit('\n').next().unwrap_or(""), e.rsplit('\n').next().unwrap_or(""));
                let ends = a.split('\n').rev().skip(1).any(|l| !l.is_empty());
                if x != y {
                    self.rep.add(&["C05"], "margin", site, format!("a line at level {} starts with {x:?}", y.len() / 2));
                }
                if ends {
                    self.rep.add(&["C21"], "trailing", site, "there is white space at the end of a line".into());
                }
            } else if i == 0 || e.is_empty() {
                self.rep.add(&["C21"], "stray-space", site, format!("{a:?} is printed where no marker asks for white space"));
            } else if lines(&e) == 0 || lines(&a) == 0 {
                self.rep.add(&[if lines(&a) + lines(&e) == 0 { "C15" } else { "C16" }], "white-space", site, format!("{a:?} is printed for a marker that stands for {e:?}"));
            } else {
                self.rep.add(&["C22"], "lines", site, format!("{} instead of {} ends of line are printed for a marker", lines(&a), lines(&e)));
            }
            return;
        }
    }
}
impl Client for Print {
    type N = Nothing;
    type H = H;
    fn builtin(&mut self, _ir: &Ir, c: &Callee, a: &[Val], st: &S, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let one = |st: S, v: Val| B::Outs(vec![(st, v)]);
        let v0 = a.first().map(|v| st.load_all(v)).unwrap_or(Val::Un);
        if let Val::G(G { t: MARKS, x, .. }) = &v0 {
            let item = |v: Val| if *x == 1 { refk(v) } else { v };
            return match last {
                "into_iter" | "into_boxed_slice" | "peekable" | "drain" | "by_ref" | "deref" | "deref_mut" | "as_slice" if !matches!(last, "into_iter") || !matches!(a[0], Val::Ref(_)) => one(st.clone(), if last == "drain" { v0.clone() } else { a[0].clone() }),
                "iter" | "into_iter" => one(st.clone(), g(MARKS, 0, 1, 0)),
                "next" => B::Outs(self.next(st, site).into_iter().map(|(s, v)| (s, v.map(|v| some(item(v))).unwrap_or_else(none))).collect()),
                "size_hint" => one(st.clone(), Val::Top),
                "len" | "is_empty" | "get" | "index" | "first" | "last" | "peek" | "next_back" | "rev" | "pop" => B::Unknown(format!("{} does {last} with the markers", site.func)),
                _ => B::No,
            };
        }
        let v1 = a.get(1).map(|v| st.load_all(v)).unwrap_or(Val::Un);
        let piece = |v: &Val| match v {
            Val::Int(c) => Some(vec![lit(&char::from_u32(*c as u32).unwrap_or('?').to_string())]),
            v => whole(v),
        };
        let joined = |x: &Val, y: &Val| -> Option<Val> {
            let mut p = whole(x)?;
            for v in piece(y)? {
                put(&mut p, v);
            }
            Some(text(p))
        };
        match last {
            "add_assign" | "push_str" | "push" | "write_str" | "write_char" | "write_fmt" if matches!(v0, Val::Str(_) | Val::Agg(FMT, _) | Val::G(_)) => {
                let mut s = st.clone();
                let (Some(p), Some(v)) = (st.last_ptr(&a[0]), joined(&v0, &v1)) else { return B::Unknown(format!("{} adds an unknown text", site.func)) };
                s.write_ptr(&p, v);
                one(s, if last.starts_with("write") { agg(0, vec![unit()]) } else { unit() })
            }
            "add" if matches!(v0, Val::Str(_) | Val::Agg(FMT, _) | Val::G(_)) => match joined(&v0, &v1) {
                Some(v) => one(st.clone(), v),
                None => B::Unknown(format!("{} adds an unknown text", site.func)),
            },
            "join" | "concat" if d.contains("slice") => {
                let Val::List(l) = &v0 else { return B::No };
                let mut p = vec![];
                for (i, x) in l.iter().enumerate() {
                    if i > 0 && last == "join" && !flat(&v1, &mut p) || !flat(&st.load_all(x), &mut p) {
                        return B::Unknown(format!("{} joins unknown texts", site.func));
                    }
                    // pieces that were folded may stand for several
                    if last == "join" && !matches!(&v1, Val::Str(s) if s.is_empty()) && whole(x).is_some_and(|w| w.iter().any(|v| matches!(v, Val::G(G { t: MAIN, .. })))) {
                        return B::Unknown(format!("{} joins texts with a separator", site.func));
                    }
                }
                one(st.clone(), text(p))
            }
            "repeat" if d.contains("str") => match (whole(&v0), &v1) {
                (Some(p), Val::Int(n)) if *n >= 0 && *n < 200 => {
                    let mut r = vec![];
                    for _ in 0..*n {
                        p.iter().for_each(|v| put(&mut r, v.clone()));
                    }
                    one(st.clone(), text(r))
                }
                _ => B::Unknown(format!("{} repeats an unknown text", site.func)),
            },
            "clone" | "to_string" | "to_owned" | "into" | "from" | "deref" | "as_ref" | "borrow" | "as_str" | "into_string" | "into_boxed_str" | "must_use" if matches!(v0, Val::G(G { t: TEXT | MAIN, .. }) | Val::Agg(FMT | ALTERED, _)) => one(st.clone(), v0.clone()),
            "is_empty" if matches!(v0, Val::G(G { t: TEXT, .. })) => one(st.clone(), Val::Int(0)),
            "len" | "starts_with" | "ends_with" | "contains" | "eq" | "ne" | "count" | "find" if matches!(v0, Val::G(G { t: TEXT, .. })) => one(st.clone(), Val::Any),
            _ if (d.starts_with("core::str") || d.starts_with("std::string::String") || d.starts_with("std::str")) && matches!(v0, Val::G(G { t: TEXT, .. })) => one(st.clone(), agg(ALTERED, vec![])),
            _ => B::No,
        }
    }
    fn before_call(&mut self, ir: &Ir, _f: usize, st: &mut S) {
        if !fold(st) && !st.g.bad && st.g.n > 2 {
            let site = Site { f: self.root, sum: 0, func: ir.fns[self.root].path.clone(), span: String::new(), tr: None };
            st.g.bad = self.astray(st, &site);
        }
    }
    fn enter(&mut self, _ir: &Ir, _f: usize, st: &S, _map: &HashMap<Id, Id>, _owned: &HashSet<Id>) -> H {
        H { folded: false, ..st.g.clone() }
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut S, exit: H, shared: &HashSet<Id>, _site: &Site) {
        let old = std::mem::replace(&mut st.g, exit);
        if st.g.folded {
            for (i, o) in st.mem.iter_mut() {
                if let (false, Obj::V(v)) = (shared.contains(i), o) {
                    *v = refold(v, None);
                }
            }
        }
        st.g.folded |= old.folded;
    }
    fn root_exit(&mut self, _ir: &Ir, st: &S, site: &Site) {
        if st.taint {
            return;
        }
        if !st.g.ended {
            // the rest of the markers is not printed
            self.rep.add(&["C01", "C03"], "print", site, "it may end before all markers are printed".into());
            return;
        }
        let v = st.read_at(0, &[]);
        self.judge(&v, st, site);
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &S, site: &Site) {
        if !st.taint {
            self.rep.add(&["C04"], "panic", site, format!("printing can panic: {what}"));
        }
    }
}
pub fn run(ir: &Ir) -> serde_json::Value {
    let most = if std::env::var("ENGINE_TIER").is_ok_and(|t| t == "thorough") { 60 } else { 24 };
    let marker = ir.adt("Marker");
    let mut mk = [0u32; 6];
    let mut known = marker.is_some();
    for (i, n) in ["Token", "Indent", "Dedent", "Space", "Blank", "Break"].iter().enumerate() {
        match marker.and_then(|t| ir.types[t].v.iter().position(|v| v.name == *n)) {
            Some(p) => mk[i] = p as u32,
            None => known = false,
        }
    }
    let mut e = Eng::new(ir, Print { rep: Report::default(), obligations: 0, ends: 0, kinds: BTreeSet::new(), mk, most, root: 0 });
    // the function that turns markers into a text
    let is_list = |t: usize| {
        let s = &ir.types[t].s;
        marker.is_some_and(|m| s.contains(&ir.types[m].s) && (s.starts_with("std::vec::Vec<") || s.starts_with("&std::vec::Vec<") || s.starts_with("&[")))
    };
    let entry = ir.fns.iter().position(|f| f.krate == "mofmt" && f.args == 1 && ir.types[f.locals[0]].s == "std::string::String" && is_list(f.locals[1]));
    match entry {
        Some(r) if known => {
            e.c.root = r;
            let mut st: S = State::new();
            let v = g(MARKS, 0, 0, 0);
            let v = if ir.types[ir.fns[r].locals[1]].k == "ref" { st.alloc_v(v) } else { v };
            st.mem.insert(1, Obj::V(v));
            e.run(vec![(r, st)]);
        }
        _ => e.undecide("no function that turns markers into a text".into()),
    }
    if e.debug {
        e.profile();
    }
    let local: BTreeSet<String> = e.sums.iter().map(|s| &ir.fns[s.f]).filter(|f| f.krate == "mofmt").map(|f| f.path.clone()).collect();
    let mut und: BTreeMap<String, usize> = e.undecided.clone();
    for (f, n) in &e.cut {
        und.insert(format!("paths of {f} that depend on an unknown value"), *n);
    }
    for u in &e.c.rep.und {
        und.insert(u.clone(), 1);
    }
    serde_json::json!({
        "client": "print",
        "findings": e.c.rep.json(),
        "undecided": und,
        "stats": {"functions": local.len(), "summaries": e.sums.len(), "blocks": e.blocks_seen.len(), "call_edges": e.calls.len(), "steps": e.steps,
            "obligations": e.c.obligations, "ends": e.c.ends, "markers_at_levels": e.c.kinds.len(), "deepest_level": most, "control_points": e.nodes.len()},
        "function_names": local,
    })
}
