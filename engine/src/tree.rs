//! The tree is built from tokens and events, and the parts of the library are put together.
//!
//! Both lists are symbolic. The ghost keeps the tree that is due; a list of children that equals what is due
//! is folded into one symbol, so that neither the width of a tree nor the length of the stream has a bound.
use crate::core::*;
use crate::ir::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

/// the events (x: the last one is taken off), and walks over them (y: by reference)
const EVENTS: u8 = 50;
const TOKENS: u8 = 51;
/// a token, x: level, y: place among the children
const TOK: u8 = 52;
/// the kind of the node open at a level
const KIND: u8 = 53;
/// one or more children of the node open at a level
const FOLD: u8 = 54;
/// a number that is at least x
const GE: u8 = 55;
/// a part of the library's data, x: which
const PART: u8 = 56;
/// lists of messages, x: 1 of the lexer, 2 of the parser
const MSGS: u8 = 57;
const DEEP: usize = 4;
const NAME: i32 = 1;
const SOURCE: i32 = 2;
const ENTRY: i32 = 3;
const P_TOKENS: i32 = 4;
const P_COMMENTS: i32 = 5;
const P_EVENTS: i32 = 6;
const P_TREE: i32 = 7;
const P_MARKERS: i32 = 8;
const P_TEXT: i32 = 9;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Nothing;
impl Node for Nothing {
    fn ids(&self, _f: &mut dyn FnMut(Id)) {}
    fn rename(&mut self, _f: &dyn Fn(Id) -> Option<Id>) {}
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    /// 0: the tree, 1: parse, 2: format
    mode: u8,
    /// children of the open nodes
    open: Vec<Vec<Val>>,
    root: Option<Val>,
    /// tokens that are due
    due: Vec<Val>,
    begun: bool,
    ended: bool,
    popped: bool,
    /// levels that were folded
    folded: u8,
    /// mode 1: messages known to be there (1) or not (2), by list
    msgs: [u8; 3],
    /// mode 1: the parser was called
    parsed: bool,
}
impl Ghost for H {
    fn roots(&self, _f: &mut dyn FnMut(Id)) {}
    fn rename(&mut self, _f: &dyn Fn(Id) -> Option<Id>) {}
}
/// functions of the library
#[derive(Default, Clone)]
struct Lib {
    lex: Option<usize>,
    events: Option<usize>,
    build: Option<usize>,
    format: Option<usize>,
    print: Option<usize>,
    parse: Option<usize>,
    pretty: Option<usize>,
}
pub struct TreeC {
    pub rep: Report,
    pub obligations: u64,
    pub ends: u64,
    lib: Lib,
    /// fields of a tree: kind, children
    ti: [u32; 2],
    /// variants of a child: token, tree
    ch: [u32; 2],
    /// variants of an event: enter, exit, advance
    ev: [u32; 3],
    /// fields of the parser's result: tokens, comments, events, errors
    pf: [u32; 4],
    deepest: usize,
}
type S = State<TreeC>;

fn sym(v: &Val) -> bool {
    match v {
        Val::G(G { t: TOK | KIND | FOLD, .. }) => true,
        Val::Agg(_, p) | Val::List(p) | Val::ListIter(p) => p.iter().any(sym),
        Val::Ref(Ptr { b: Base::K(v), .. }) => sym(v),
        _ => false,
    }
}
fn map(v: &Val, f: &dyn Fn(&Val) -> Option<Val>) -> Val {
    if let Some(r) = f(v) {
        return r;
    }
    match v {
        Val::Agg(k, p) => Val::Agg(*k, Rc::new(p.iter().map(|v| map(v, f)).collect())),
        Val::List(p) => Val::List(Rc::new(p.iter().map(|v| map(v, f)).collect())),
        Val::ListIter(p) => Val::ListIter(Rc::new(p.iter().map(|v| map(v, f)).collect())),
        _ => v.clone(),
    }
}
fn has(v: &Val, l: &[Val]) -> bool {
    match v {
        Val::List(p) if p.as_slice() == l => true,
        Val::Agg(_, p) | Val::List(p) | Val::ListIter(p) => p.iter().any(|v| has(v, l)),
        _ => false,
    }
}
impl TreeC {
    fn tree(&self, level: usize, kids: Vec<Val>) -> Val {
        let mut f = vec![Val::Un; 2];
        f[self.ti[0] as usize] = g(KIND, 0, level as i32, 0);
        f[self.ti[1] as usize] = Val::List(Rc::new(kids));
        agg(0, f)
    }
    /// children that are as they should be become one symbol
    fn fold(&self, st: &mut S) {
        for l in 0..st.g.open.len() {
            let e = st.g.open[l].clone();
            let one = e.len() == 1 && matches!(&e[0], Val::Agg(k, _) if *k == self.ch[1]);
            if e.len() < 2 && !one || !st.mem.values().any(|o| matches!(o, Obj::V(v) if has(v, &e))) {
                continue;
            }
            let sym = vec![g(FOLD, 0, l as i32, 0)];
            let s2 = sym.clone();
            let f = move |v: &Val| match v {
                Val::List(p) if p.as_slice() == e.as_slice() => Some(Val::List(Rc::new(s2.clone()))),
                _ => None,
            };
            for o in st.mem.values_mut() {
                if let Obj::V(v) = o {
                    *v = map(v, &f);
                }
            }
            st.g.open[l] = sym;
            st.g.folded |= 1 << l;
        }
    }
    /// a node that is not as it should be, although nothing is under way
    fn astray(&mut self, st: &S, site: &Site) {
        let Some(l) = st.g.open.iter().rposition(|e| e.len() > 1) else { return };
        let want = &st.g.open[l];
        fn find<'a>(v: &'a Val, ti: &[u32; 2], l: i32, out: &mut Vec<&'a Rc<Vec<Val>>>) {
            if let Val::Agg(0, f) = v {
                if f.len() == 2 && matches!(f[ti[0] as usize], Val::G(G { t: KIND, x, .. }) if x == l) {
                    if let Val::List(p) = &f[ti[1] as usize] {
                        out.push(p);
                    }
                }
            }
            match v {
                Val::Agg(_, p) | Val::List(p) | Val::ListIter(p) => p.iter().for_each(|v| find(v, ti, l, out)),
                _ => (),
            }
        }
        let mut all = vec![];
        for o in st.mem.values() {
            if let Obj::V(v) = o {
                find(v, &self.ti, l as i32, &mut all);
            }
        }
        if all.len() == 1 && all[0].as_slice() != want.as_slice() {
            let p = all[0].as_slice().to_vec();
            self.differ(&p, &want.clone(), site);
        } else {
            self.rep.und.insert(format!("{} builds its tree in a way that is not followed", site.func));
        }
    }
    fn differ(&mut self, is: &[Val], want: &[Val], site: &Site) {
        fn leaves(v: &Val, out: &mut Vec<Val>) {
            match v {
                Val::G(G { t: TOK | FOLD, .. }) => out.push(v.clone()),
                Val::Agg(_, p) | Val::List(p) => p.iter().for_each(|v| leaves(v, out)),
                _ => (),
            }
        }
        let flat = |p: &[Val]| {
            let mut r = vec![];
            p.iter().for_each(|v| leaves(v, &mut r));
            r
        };
        if std::env::var("ENGINE_DEBUG").is_ok() {
            eprintln!("IS {is:?}\nWANT {want:?}");
        }
        fn unsure(v: &Val) -> bool {
            match v {
                Val::Top | Val::Any | Val::Un => true,
                Val::Agg(_, p) | Val::List(p) => p.iter().any(unsure),
                _ => false,
            }
        }
        if is.iter().any(unsure) {
            self.rep.und.insert(format!("the tree {} builds is not known", site.func));
            return;
        }
        if flat(is) != flat(want) {
            self.rep.add(&["C01"], "tree-tokens", site, "the tree does not hold the tokens of the source once and in order".into());
        } else {
            self.rep.add(&["C01", "C13"], "tree-shape", site, "the tree is not the one the parser's events describe".into());
        }
    }
    fn next(&mut self, st: &S, site: &Site) -> Vec<(S, Option<Val>)> {
        let mut st = st.clone();
        let mut out = vec![];
        if st.g.ended {
            return vec![(st, None)];
        }
        self.fold(&mut st);
        if st.g.due.len() > 1 {
            self.rep.add(&["C01"], "tree-tokens", site, "an event for a token is passed without taking the token".into());
            return out;
        }
        let (more, most) = st.g.open.iter().fold((0, 0), |(n, m), e| (n + e.len().saturating_sub(1), m.max(e.len())));
        if more > 1 || most > 2 {
            self.astray(&st, site);
            return out;
        }
        self.obligations += 1;
        let ev = |k: usize, f: Vec<Val>| Some(agg(self.ev[k], f));
        let depth = st.g.open.len();
        self.deepest = self.deepest.max(depth);
        if depth < DEEP && (depth > 0 || !st.g.begun) {
            let mut s = st.clone();
            s.g.begun = true;
            s.g.open.push(vec![]);
            out.push((s, ev(0, vec![g(KIND, 0, depth as i32, 0)])));
        }
        if depth > 0 {
            let mut s = st.clone();
            let top = s.g.open.last_mut().unwrap();
            let t = g(TOK, 0, depth as i32 - 1, top.len() as i32);
            top.push(agg(self.ch[0], vec![t.clone()]));
            s.g.due.push(t);
            out.push((s, ev(2, vec![])));
            let mut s = st.clone();
            let kids = s.g.open.pop().unwrap();
            if depth == 1 {
                let t = self.tree(0, kids);
                s.g.root = Some(t);
                if s.g.popped {
                    s.g.ended = true;
                    out.push((s, None));
                } else {
                    s.g.ended = true;
                    out.push((s, ev(1, vec![])));
                }
            } else {
                if !kids.is_empty() {
                    let t = self.tree(depth - 1, kids);
                    let v = agg(self.ch[1], vec![t]);
                    s.g.open.last_mut().unwrap().push(v);
                }
                out.push((s, ev(1, vec![])));
            }
        }
        out
    }
    fn part(&self, v: &Val) -> i32 {
        match v {
            Val::G(G { t: PART, x, .. }) => *x,
            _ => 0,
        }
    }
    /// calls of the other parts of the library
    fn glue(&mut self, f: usize, a: &[Val], st: &S, site: &Site) -> Option<B<Self>> {
        let v: Vec<Val> = a.iter().map(|v| st.load_all(v)).collect();
        let p = |x: i32| g(PART, 0, x, 0);
        let is = |i: usize, x: i32| v.get(i).map_or(0, |v| self.part(v)) == x;
        let known = v.iter().all(|v| self.part(v) != 0);
        let l = self.lib.clone();
        let (name, ok, r, props): (&str, bool, Val, &[&str]) = match Some(f) {
            x if x == l.lex => ("the lexer", is(0, NAME) && is(1, SOURCE), agg(0, vec![p(P_TOKENS), p(P_COMMENTS), g(MSGS, 0, 1, 0)]), &["C11", "C14", "C01"]),
            x if x == l.events => ("the parser", is(0, NAME) && is(1, P_TOKENS) && is(2, ENTRY), agg(0, vec![p(P_EVENTS), g(MSGS, 0, 2, 0)]), &["C12", "C13", "C14"]),
            x if x == l.build => ("the tree builder", is(0, P_TOKENS) && is(1, P_EVENTS), p(P_TREE), &["C01", "C13"]),
            x if x == l.format => ("the formatter", is(0, P_TREE) && is(1, P_COMMENTS), p(P_MARKERS), &["C01", "C03"]),
            x if x == l.print => ("the printer", is(0, P_MARKERS), p(P_TEXT), &["C01"]),
            _ => return None,
        };
        self.obligations += 1;
        if !known {
            return Some(B::Unknown(format!("{} gives {name} data that is not followed", site.func)));
        }
        let mut s = st.clone();
        s.g.parsed |= Some(f) == l.events;
        if !ok {
            self.rep.add(props, "wiring", site, format!("{name} is not given what belongs to it"));
            return Some(B::Outs(vec![]));
        }
        Some(B::Outs(vec![(s, r)]))
    }
    fn msgs(&self, v: &Val) -> Option<i32> {
        match v {
            Val::G(G { t: MSGS, x, .. }) => Some(*x),
            Val::List(l) if l.is_empty() => Some(0),
            _ => None,
        }
    }
    fn judge_parse(&mut self, st: &S, site: &Site) {
        self.ends += 1;
        let v = st.read_at(0, &[]);
        let Val::Agg(_, f) = &v else {
            self.rep.und.insert(format!("the result of {} is not known", site.func));
            return;
        };
        let at = |i: usize| f.get(self.pf[i] as usize).cloned().unwrap_or(Val::Un);
        let Some(m) = self.msgs(&at(3)) else {
            self.rep.und.insert(format!("the messages of {} are not known", site.func));
            return;
        };
        let missing = |l: i32| m & l == 0 && st.g.msgs[l as usize] != 2;
        let fails = (1..3).any(|l| m & l != 0 && st.g.msgs[l as usize] == 1);
        if missing(1) {
            self.rep.add(&["C13", "C11"], "messages", site, "the errors the lexer found may be missing in the result".into());
        }
        if st.g.parsed && missing(2) {
            self.rep.add(&["C13"], "messages", site, "the errors the parser found may be missing in the result".into());
        }
        if fails {
            return;
        }
        if !st.g.parsed {
            self.rep.add(&["C13"], "messages", site, "a source may be taken for correct although it was not parsed".into());
            return;
        }
        for (i, (want, what, props)) in [(P_TOKENS, "tokens", &["C01", "C11"]), (P_COMMENTS, "comments", &["C03", "C11"]), (P_EVENTS, "events", &["C13", "C12"])].into_iter().enumerate() {
            let v = at(i);
            if matches!(v, Val::Top | Val::Any) {
                self.rep.und.insert(format!("the {what} in the result of {} are not known", site.func));
            } else if self.part(&v) != want {
                self.rep.add(props, "wiring", site, format!("the {what} in the result are not those of the source"));
            }
        }
    }
}
impl Client for TreeC {
    type N = Nothing;
    type H = H;
    fn builtin(&mut self, _ir: &Ir, c: &Callee, a: &[Val], st: &S, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let one = |st: S, v: Val| B::Outs(vec![(st, v)]);
        if st.g.mode > 0 {
            if let Some(r) = c.f.and_then(|f| self.glue(f, a, st, site)) {
                return r;
            }
        }
        let v0 = a.first().map(|v| st.load_all(v)).unwrap_or(Val::Un);
        let v1 = a.get(1).map(|v| st.load_all(v)).unwrap_or(Val::Un);
        match &v0 {
            Val::G(h @ G { t: EVENTS | TOKENS, .. }) => {
                let h = *h;
                let item = |v: Option<Val>| v.map(|v| some(if h.y == 1 { refk(v) } else { v })).unwrap_or_else(none);
                match last {
                    "iter" | "into_iter" if last == "iter" || matches!(a[0], Val::Ref(_)) => one(st.clone(), Val::G(G { y: 1, ..h })),
                    "into_iter" | "into_boxed_slice" | "by_ref" | "deref" | "deref_mut" | "as_slice" | "peekable" | "fuse" => one(st.clone(), a[0].clone()),
                    "drain" => one(st.clone(), v0.clone()),
                    "pop" if h.t == EVENTS && !st.g.begun && !st.g.popped => {
                        let mut s = st.clone();
                        s.g.popped = true;
                        one(s, some(agg(self.ev[1], vec![])))
                    }
                    "next" if h.t == EVENTS => B::Outs(self.next(st, site).into_iter().map(|(s, v)| (s, item(v))).collect()),
                    "next" => {
                        let mut s = st.clone();
                        if s.g.due.is_empty() {
                            if s.g.ended {
                                return one(s, none());
                            }
                            if s.g.begun {
                                self.rep.add(&["C01"], "tree-tokens", site, "a token is taken without an event for it".into());
                                return B::Outs(vec![]);
                            }
                            return B::Unknown(format!("{} takes tokens before their events", site.func));
                        }
                        let t = s.g.due.remove(0);
                        one(s, item(Some(t)))
                    }
                    "size_hint" => one(st.clone(), Val::Top),
                    "is_empty" if h.t == EVENTS => one(st.clone(), Val::Int(0)),
                    "len" | "with_capacity" => one(st.clone(), Val::Any),
                    _ => B::No,
                }
            }
            Val::List(l) if l.iter().any(|v| matches!(v, Val::G(G { t: FOLD, .. }))) => match last {
                "len" => one(st.clone(), g(GE, 0, l.len() as i32, 0)),
                "is_empty" => one(st.clone(), Val::Int(0)),
                _ => B::No,
            },
            Val::G(G { t: MSGS, x, .. }) => match last {
                "append" | "extend" | "extend_from_slice" => match (self.msgs(&v1), st.last_ptr(&a[0])) {
                    (Some(y), Some(p)) => {
                        let mut s = st.clone();
                        s.write_ptr(&p, g(MSGS, 0, x | y, 0));
                        if let ("append", Some(q)) = (last, st.last_ptr(&a[1])) {
                            s.write_ptr(&q, Val::List(Rc::new(vec![])));
                        }
                        one(s, unit())
                    }
                    _ => B::Unknown(format!("{} adds unknown messages", site.func)),
                },
                "chain" => match self.msgs(&v1) {
                    Some(y) => one(st.clone(), g(MSGS, 0, x | y, 0)),
                    None => B::Unknown(format!("{} adds unknown messages", site.func)),
                },
                "into_iter" | "collect" | "clone" | "cloned" | "iter" | "to_vec" | "deref" | "as_slice" | "from_iter" | "drain" => one(st.clone(), v0.clone()),
                "is_empty" => {
                    let mut out = vec![];
                    let mut e = st.clone();
                    for l in 1..3 {
                        if x & l != 0 {
                            e.g.msgs[l as usize] |= 2;
                        }
                    }
                    if !e.g.msgs.contains(&3) {
                        out.push((e, Val::Int(1)));
                    }
                    let mut known = false;
                    for l in 1..3usize {
                        if x & l as i32 != 0 && st.g.msgs[l] != 2 {
                            let mut s = st.clone();
                            s.g.msgs[l] = 1;
                            out.push((s, Val::Int(0)));
                            known = true;
                        }
                    }
                    let _ = known;
                    B::Outs(out)
                }
                "len" => one(st.clone(), Val::Any),
                "reserve" | "shrink_to_fit" => one(st.clone(), unit()),
                _ => B::No,
            },
            Val::List(l) if l.is_empty() && matches!(v1, Val::G(G { t: MSGS, .. })) && matches!(last, "append" | "extend" | "extend_from_slice") => match st.last_ptr(&a[0]) {
                Some(p) => {
                    let mut s = st.clone();
                    s.write_ptr(&p, v1.clone());
                    if let ("append", Some(q)) = (last, st.last_ptr(&a[1])) {
                        s.write_ptr(&q, Val::List(Rc::new(vec![])));
                    }
                    one(s, unit())
                }
                None => B::No,
            },
            Val::G(G { t: PART, x, .. }) => match last {
                "clone" | "deref" | "as_ref" | "borrow" | "as_str" | "to_vec" | "as_slice" | "to_owned" | "to_string" | "into" | "from" | "must_use" => one(st.clone(), if last == "deref" || last.starts_with("as_") || last == "borrow" { a[0].clone() } else { v0.clone() }),
                "is_empty" | "len" if *x <= P_EVENTS => one(st.clone(), Val::Any),
                "pop" | "remove" | "swap_remove" | "dedup" | "dedup_by" | "dedup_by_key" | "reverse" | "clear" | "retain" | "retain_mut" | "truncate" | "push" | "insert" | "sort" | "sort_by" | "sort_by_key" if (P_TOKENS..=P_MARKERS).contains(x) => {
                    // data passed from one part to the next is changed on the way
                    if let Some(p) = st.last_ptr(&a[0]) {
                        let sure = !last.starts_with("sort") && !last.starts_with("retain") && last != "truncate";
                        let mut s = st.clone();
                        s.write_ptr(&p, if sure { g(PART, 0, -1, 0) } else { Val::Top });
                        return one(s, Val::Top);
                    }
                    B::No
                }
                "replace" | "to_lowercase" | "to_uppercase" if *x == P_TEXT => one(st.clone(), g(PART, 0, -1, 0)),
                "reserve" | "shrink_to_fit" => one(st.clone(), unit()),
                _ => B::No,
            },
            _ => B::No,
        }
    }
    fn bin(&mut self, _ir: &Ir, op: &str, a: &Val, b: &Val, st: S, ovf: bool, _site: &Site) -> Outs<Self> {
        let kind = |v: &Val| matches!(v, Val::G(G { t: KIND, .. }));
        if (kind(a) || kind(b)) && matches!(op, "Eq" | "Ne") {
            // any kind is possible
            return if a == b { vec![(st, b1(op == "Eq"))] } else { vec![(st.clone(), b1(true)), (st, b1(false))] };
        }
        let (x, k, flip) = match (a, b) {
            (Val::G(G { t: GE, x, .. }), Val::Int(k)) => (*x as i128, *k, false),
            (Val::Int(k), Val::G(G { t: GE, x, .. })) => (*x as i128, *k, true),
            _ => return vec![(st, if ovf { agg(0, vec![Val::Top, Val::Int(0)]) } else { Val::Top })],
        };
        let test = |d: i128| {
            let (p, q) = if flip { (k, d) } else { (d, k) };
            match op {
                "Lt" => p < q,
                "Le" => p <= q,
                "Gt" => p > q,
                "Ge" => p >= q,
                "Eq" => p == q,
                "Ne" => p != q,
                _ => false,
            }
        };
        if !matches!(op, "Lt" | "Le" | "Gt" | "Ge" | "Eq" | "Ne") {
            return vec![(st, if ovf { agg(0, vec![Val::Top, Val::Int(0)]) } else { Val::Top })];
        }
        let r: BTreeSet<bool> = (x..x.max(k) + 3).map(test).collect();
        r.into_iter().map(|v| (st.clone(), b1(v))).collect()
    }
    fn switch(&mut self, _ir: &Ir, gv: &G, t: &[i128], st: &S) -> Option<Vec<(S, usize)>> {
        match gv.t {
            // any kind is possible
            KIND => Some((0..=t.len()).map(|i| (st.clone(), i)).collect()),
            _ => None,
        }
    }
    fn field(&mut self, g: &G, _i: u32, _st: &S) -> Option<Val> {
        (g.t == TOK).then_some(Val::Any)
    }
    fn before_call(&mut self, _ir: &Ir, _f: usize, st: &mut S) {
        self.fold(st);
    }
    fn enter(&mut self, _ir: &Ir, _f: usize, st: &S, _map: &HashMap<Id, Id>, _owned: &HashSet<Id>) -> H {
        H { folded: 0, ..st.g.clone() }
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut S, exit: H, shared: &HashSet<Id>, _site: &Site) {
        let old = std::mem::replace(&mut st.g, exit);
        let mask = st.g.folded;
        if mask != 0 {
            for (i, o) in st.mem.iter_mut() {
                if let (false, Obj::V(v)) = (shared.contains(i), o) {
                    if sym(v) {
                        *v = map(v, &|v| matches!(v, Val::G(G { t: FOLD | TOK, x, .. }) if mask >> x & 1 == 1).then_some(Val::Top));
                    }
                }
            }
        }
        st.g.folded |= old.folded;
    }
    fn root_exit(&mut self, _ir: &Ir, st: &S, site: &Site) {
        if st.taint {
            return;
        }
        let v = st.read_at(0, &[]);
        match st.g.mode {
            1 => self.judge_parse(st, site),
            2 => {
                self.ends += 1;
                if self.part(&v) == 0 {
                    self.rep.und.insert(format!("the text {} returns is not known", site.func));
                } else if self.part(&v) != P_TEXT {
                    self.rep.add(&["C01"], "wiring", site, "the text returned is not the one that was printed".into());
                }
            }
            _ => {
                self.ends += 1;
                if !st.g.ended || !st.g.due.is_empty() {
                    self.rep.add(&["C01"], "tree-tokens", site, "the tree may be returned before all tokens are in it".into());
                    return;
                }
                let (Some(want), Val::Agg(_, f)) = (st.g.root.clone(), &v) else {
                    self.rep.und.insert(format!("the tree {} returns is not known", site.func));
                    return;
                };
                let Val::Agg(_, w) = &want else { return };
                let kids = |f: &[Val]| match f.get(self.ti[1] as usize) {
                    Some(Val::List(l)) => Some(l.as_slice().to_vec()),
                    _ => None,
                };
                match (kids(f), kids(w)) {
                    (Some(x), Some(y)) if x != y => self.differ(&x, &y, site),
                    (Some(_), _) if f[self.ti[0] as usize] != w[self.ti[0] as usize] => self.rep.add(&["C01", "C13"], "tree-shape", site, "the tree is not of the kind the parser's events describe".into()),
                    (Some(_), _) => (),
                    _ => {
                        self.rep.und.insert(format!("the tree {} returns is not known", site.func));
                    }
                }
            }
        }
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &S, site: &Site) {
        if !st.taint {
            let (p, m) = if st.g.mode == 1 { ("C06", "parsing") } else { ("C04", "building the tree") };
            self.rep.add(&[p], "panic", site, format!("{m} can panic: {what}"));
        }
    }
}
fn b1(b: bool) -> Val {
    Val::Int(b as i128)
}
pub fn run(ir: &Ir) -> serde_json::Value {
    let ty = |t: usize| ir.types[t].s.as_str();
    let strip = |t: usize| {
        let mut t = t;
        while ir.types[t].k == "ref" {
            t = ir.types[t].e.unwrap_or(0);
        }
        t
    };
    let adt = |n: &str| ir.adt(n);
    let (tree, child, event, token, kind, marker, result) = (adt("Tree"), adt("Child"), adt("SyntaxEvent"), adt("Token"), adt("SyntaxKind"), adt("Marker"), adt("ParsedModelica"));
    let vec_of = |t: usize, e: Option<usize>| e.is_some_and(|e| ty(strip(t)) == format!("std::vec::Vec<{}>", ty(e)) || ty(strip(t)) == format!("[{}]", ty(e)));
    let mut und: Vec<String> = vec![];
    let mut c = TreeC { rep: Report::default(), obligations: 0, ends: 0, lib: Lib::default(), ti: [0; 2], ch: [0; 2], ev: [0; 3], pf: [0; 4], deepest: 0 };
    let mut known = true;
    let variant = |t: Option<usize>, n: &str| t.and_then(|t| ir.types[t].v.iter().position(|v| v.name == n)).map(|p| p as u32);
    let mut set = |to: &mut u32, v: Option<u32>| match v {
        Some(v) => *to = v,
        None => known = false,
    };
    for (i, n) in ["Enter", "Exit", "Advance"].iter().enumerate() {
        set(&mut c.ev[i], variant(event, n));
    }
    for (i, n) in ["Token", "Tree"].iter().enumerate() {
        set(&mut c.ch[i], variant(child, n));
    }
    let field = |t: Option<usize>, f: &dyn Fn(&str, usize) -> bool| t.and_then(|t| ir.types[t].v.first().and_then(|v| v.f.iter().position(|(n, t)| f(n, *t)))).map(|p| p as u32);
    set(&mut c.ti[0], field(tree, &|_, t| Some(t) == kind));
    set(&mut c.ti[1], field(tree, &|_, t| vec_of(t, child)));
    let plain = tree.is_some_and(|t| ir.types[t].v.first().is_some_and(|v| v.f.len() == 2));
    for (i, n) in ["tokens", "comments", "events", "errors"].iter().enumerate() {
        set(&mut c.pf[i], field(result, &|m, _| m == *n));
    }
    let find = |f: &dyn Fn(&Func) -> bool| ir.fns.iter().position(|x| x.krate == "mofmt" && !x.path.contains('{') && f(x));
    c.lib.lex = find(&|f| {
        let r = &ir.types[f.locals[0]];
        f.args == 2 && r.k == "tuple" && r.f.len() == 3 && vec_of(r.f[0], token) && vec_of(r.f[1], token) && ty(r.f[2]) == "std::vec::Vec<std::string::String>"
    });
    c.lib.events = find(&|f| {
        let r = &ir.types[f.locals[0]];
        f.args == 3 && r.k == "tuple" && r.f.len() == 2 && vec_of(r.f[0], event) && ty(r.f[1]) == "std::vec::Vec<std::string::String>"
    });
    c.lib.build = find(&|f| f.args == 2 && Some(f.locals[0]) == tree && vec_of(f.locals[1], token) && vec_of(f.locals[2], event));
    c.lib.format = find(&|f| f.args == 2 && vec_of(f.locals[0], marker) && Some(f.locals[1]) == tree && vec_of(f.locals[2], token));
    c.lib.print = find(&|f| f.args == 1 && ty(f.locals[0]) == "std::string::String" && vec_of(f.locals[1], marker));
    c.lib.parse = find(&|f| f.args == 3 && Some(f.locals[0]) == result && Some(f.locals[3]) == kind);
    c.lib.pretty = find(&|f| f.args == 3 && ty(f.locals[0]) == "std::string::String" && vec_of(f.locals[1], token) && vec_of(f.locals[2], token) && vec_of(f.locals[3], event));
    let lib = c.lib.clone();
    let mut e = Eng::new(ir, c);
    let part = |x: i32| g(PART, 0, x, 0);
    let mut give = |st: &mut S, f: usize, i: usize, v: Val| {
        let v = if ir.types[ir.fns[f].locals[i]].k == "ref" { refk(v) } else { v };
        st.mem.insert(i as u32, Obj::V(v));
    };
    match lib.build {
        Some(f) if known && plain => {
            let mut st: S = State::new();
            give(&mut st, f, 1, g(TOKENS, 0, 0, 0));
            give(&mut st, f, 2, g(EVENTS, 0, 0, 0));
            e.run(vec![(f, st)]);
        }
        _ => und.push("no function that builds a tree of tokens and events".into()),
    }
    match (lib.parse, lib.lex, lib.events) {
        (Some(f), Some(_), Some(_)) if known => {
            let mut st: S = State::new();
            st.g.mode = 1;
            for (i, x) in [NAME, SOURCE, ENTRY].into_iter().enumerate() {
                give(&mut st, f, i + 1, part(x));
            }
            e.run(vec![(f, st)]);
        }
        _ => und.push("no function that parses a source".into()),
    }
    match (lib.pretty, lib.build, lib.format, lib.print) {
        (Some(f), Some(_), Some(_), Some(_)) => {
            let mut st: S = State::new();
            st.g.mode = 2;
            for (i, x) in [P_TOKENS, P_COMMENTS, P_EVENTS].into_iter().enumerate() {
                give(&mut st, f, i + 1, part(x));
            }
            e.run(vec![(f, st)]);
        }
        _ => und.push("no function that formats tokens and events".into()),
    }
    if e.debug {
        e.profile();
    }
    let local: BTreeSet<String> = e.sums.iter().map(|s| &ir.fns[s.f]).filter(|f| f.krate == "mofmt").map(|f| f.path.clone()).collect();
    let mut all: BTreeMap<String, usize> = e.undecided.clone();
    for (f, n) in &e.cut {
        all.insert(format!("paths of {f} that depend on an unknown value"), *n);
    }
    for u in e.c.rep.und.iter().chain(&und) {
        all.insert(u.clone(), 1);
    }
    serde_json::json!({
        "client": "tree",
        "findings": e.c.rep.json(),
        "undecided": all,
        "stats": {"functions": local.len(), "summaries": e.sums.len(), "blocks": e.blocks_seen.len(), "call_edges": e.calls.len(), "steps": e.steps,
            "obligations": e.c.obligations, "ends": e.c.ends, "nesting": e.c.deepest, "control_points": e.nodes.len()},
        "function_names": local,
    })
}
