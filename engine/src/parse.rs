//! The parser: it is total, follows the grammar, accepts the grammar, and places its errors.
use crate::core::*;
use crate::gram::*;
use crate::ir::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const TOKS: u8 = 10; // the token collection
const EVTS: u8 = 11; // the event collection
const ERRS: u8 = 12; // the error collection
const POS: u8 = 13; // position in the token collection, x: distance from the cursor
const TLEN: u8 = 14; // length of the token collection
const TOK: u8 = 15; // a token, x: distance from the cursor
const TK: u8 = 16; // kind of such a token
const TP: u8 = 17; // start (y=0) or end (y=1) of the token
const TL: u8 = 18; // y: 0/1 line of start/end, 2/3 column of start/end, 4/5 pos, 6: other
const LIFE: u8 = 19; // positive rest of the look-ahead budget
const MARK: u8 = 20; // index of an event, id: its cell
const LAST: i32 = -7; // distance of the last token

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct NoNode;
impl Node for NoNode {
    fn ids(&self, _f: &mut dyn FnMut(Id)) {}
    fn rename(&mut self, _f: &dyn Fn(Id) -> Option<Id>) {}
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Fr {
    cell: Id,
    st: u32,
    non: bool,
    /// mode 1: kind known not to be the next child
    excl: Option<u8>,
    /// mode 1: nothing may be consumed inside
    empty: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Fx {
    Rel(u32),
    Close,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    mode: u8,
    win: Vec<u128>,
    adv: i32,
    err: bool,
    any: bool,
    prog: bool,
    tot: bool,
    moved: bool,
    /// number of tokens consumed since the function was entered (up to `la` + 1), and number
    /// of tokens something was known about then
    cnt: u8,
    la: u8,
    /// the look-ahead is the one before the call
    same: bool,
    /// mode 1: since when the budget has been used how often (0: entry, 1: renewed, 2+k: after
    /// the child k), and whether a token was consumed meanwhile
    ub: u16,
    un: u16,
    us: bool,
    pk: u8,
    fx: Vec<Fx>,
    frames: Vec<Fr>,
    pend: Option<Id>,
    done: bool,
}
impl Ghost for H {
    fn roots(&self, f: &mut dyn FnMut(Id)) {
        for x in &self.frames {
            if x.cell != 0 {
                f(x.cell)
            }
        }
        if let Some(p) = self.pend {
            f(p)
        }
    }
    fn rename(&mut self, f: &dyn Fn(Id) -> Option<Id>) {
        for x in &mut self.frames {
            if x.cell != 0 {
                x.cell = f(x.cell).unwrap_or(0)
            }
        }
        self.pend = self.pend.and_then(f)
    }
    fn progress(&self) -> bool {
        self.prog
    }
    fn set_progress(&mut self, p: bool) {
        self.prog = p
    }
    fn total(&self) -> bool {
        self.tot
    }
    fn set_total(&mut self, p: bool) {
        self.tot = p
    }
}
type Fs = Vec<(u8, u8)>;
type Rel = Vec<(u8, u8, u8)>;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Move {
    Tok(u8),
    Child(u8),
    End,
}

pub struct Parse<'g> {
    pub gr: &'g Gram,
    pub rep: Report,
    full: u128,
    eof: u128,
    fs: Vec<Rc<Fs>>,
    fsi: HashMap<Rc<Fs>, u32>,
    rels: Vec<Rc<Rel>>,
    reli: HashMap<Rc<Rel>, u32>,
    /// parent contexts of a kind
    ctx: BTreeMap<u8, Vec<(u8, u8)>>,
    memo: HashMap<(u32, Option<u8>, Vec<u128>), Rc<BTreeSet<Move>>>,
    /// production functions and their kinds (mode 1)
    pub prod: HashMap<usize, (u8, Val)>,
    ev: [u32; 3],
    tok_fields: Vec<String>,
    pos_fields: Vec<String>,
    pub name_arg: Val,
    pub obligations: u64,
    pub closes: BTreeSet<(u8, u32)>,
    pub want: Option<u8>,
    pub errsites: BTreeSet<String>,
    pub und: BTreeSet<String>,
    /// how often the budget is used at most: production, since when, until when (0: exit,
    /// 1: token, 2+k: child)
    pub uses: BTreeMap<(u8, u16, u16), (u16, String, String)>,
    pub budget: Option<i128>,
    /// a production that does not renew the budget when it consumes a token
    pub stale: BTreeMap<u8, (String, String)>,
}

impl<'g> Parse<'g> {
    pub fn new(ir: &Ir, gr: &'g Gram) -> Self {
        let e = ir.adt("SyntaxEvent");
        let var = |n: &str| e.and_then(|e| ir.types[e].v.iter().position(|v| v.name == n)).unwrap_or(99) as u32;
        let mut full = 0u128;
        for (i, t) in gr.toks.iter().enumerate() {
            if t != "LineComment" && t != "BlockComment" {
                full |= 1 << i;
            }
        }
        let fields = |n: &str| ir.adt(n).map(|t| ir.types[t].v[0].f.iter().map(|f| f.0.clone()).collect()).unwrap_or_default();
        let mut ctx: BTreeMap<u8, Vec<(u8, u8)>> = BTreeMap::new();
        for (k, n) in &gr.nfa {
            for (i, p) in n.pos.iter().enumerate() {
                if let Some(Pos { sym: Sym::K(c), .. }) = p {
                    ctx.entry(*c).or_default().push((*k, i as u8));
                }
            }
        }
        Parse {
            gr,
            rep: Report::default(),
            full,
            eof: 1 << gr.t("EOF"),
            fs: vec![],
            fsi: HashMap::new(),
            rels: vec![],
            reli: HashMap::new(),
            ctx,
            memo: HashMap::new(),
            prod: HashMap::new(),
            ev: [var("Enter"), var("Exit"), var("Advance")],
            tok_fields: fields("Token"),
            pos_fields: fields("Position"),
            name_arg: Val::Str(Rc::from("\u{1}name")),
            obligations: 0,
            closes: BTreeSet::new(),
            want: None,
            errsites: BTreeSet::new(),
            und: BTreeSet::new(),
            uses: BTreeMap::new(),
            budget: None,
            stale: BTreeMap::new(),
        }
    }
    fn fs_id(&mut self, f: Fs) -> u32 {
        let f = Rc::new(f);
        if let Some(i) = self.fsi.get(&f) {
            return *i;
        }
        self.fs.push(f.clone());
        self.fsi.insert(f, self.fs.len() as u32 - 1);
        self.fs.len() as u32 - 1
    }
    fn rel_id(&mut self, f: Rel) -> u32 {
        let f = Rc::new(f);
        if let Some(i) = self.reli.get(&f) {
            return *i;
        }
        self.rels.push(f.clone());
        self.reli.insert(f, self.rels.len() as u32 - 1);
        self.rels.len() as u32 - 1
    }
    fn start(&mut self) -> u32 {
        let v = self.gr.nfa.keys().map(|k| (*k, 0)).collect();
        self.fs_id(v)
    }
    fn step(&self, k: u8, p: u8, s: Sym) -> Vec<u8> {
        let Some(n) = self.gr.nfa.get(&k) else { return vec![] };
        n.follow[p as usize].iter().filter(|q| n.pos[**q].as_ref().is_some_and(|x| x.sym == s)).map(|q| *q as u8).collect()
    }
    fn fs_step(&mut self, f: u32, s: Sym) -> u32 {
        let v = self.fs[f as usize].clone();
        let mut o: BTreeSet<(u8, u8)> = BTreeSet::new();
        for (k, p) in v.iter() {
            for q in self.step(*k, *p, s) {
                o.insert((*k, q));
            }
        }
        self.fs_id(o.into_iter().collect())
    }
    fn rel_step(&mut self, r: Option<u32>, s: Sym) -> u32 {
        let v: Rel = match r {
            Some(r) => self.rels[r as usize].to_vec(),
            None => self.gr.nfa.iter().flat_map(|(k, n)| (0..n.pos.len()).map(move |p| (*k, p as u8, p as u8))).collect(),
        };
        let mut o: BTreeSet<(u8, u8, u8)> = BTreeSet::new();
        for (k, a, p) in v {
            for q in self.step(k, p, s) {
                o.insert((k, a, q));
            }
        }
        if let (None, Sym::K(c)) = (r, s) {
            o.insert((254, c, c));
        }
        self.rel_id(o.into_iter().collect())
    }
    fn fs_rel(&mut self, f: u32, r: u32) -> u32 {
        let v = self.fs[f as usize].clone();
        let r = self.rels[r as usize].clone();
        let mut o: BTreeSet<(u8, u8)> = BTreeSet::new();
        for (k, p) in v.iter() {
            for (k2, a, q) in r.iter() {
                if k2 == k && a == p {
                    o.insert((*k, *q));
                }
            }
        }
        self.fs_id(o.into_iter().collect())
    }
    fn rel_rel(&mut self, a: u32, b: u32) -> u32 {
        let x = self.rels[a as usize].clone();
        let y = self.rels[b as usize].clone();
        let mut idx: HashMap<(u8, u8), Vec<u8>> = HashMap::new();
        for (k, s, q) in y.iter() {
            idx.entry((*k, *s)).or_default().push(*q);
        }
        let mut o: BTreeSet<(u8, u8, u8)> = BTreeSet::new();
        for (k, s, p) in x.iter() {
            for q in idx.get(&(*k, *p)).filter(|_| *k != 254).into_iter().flatten() {
                o.insert((*k, *s, *q));
            }
        }
        self.rel_id(o.into_iter().collect())
    }
    /// a child is added to the innermost open node
    fn child(&mut self, g: &mut H, s: Sym) {
        if let Some(f) = g.frames.last() {
            let st = self.fs_step(f.st, s);
            let f = g.frames.last_mut().unwrap();
            f.st = st;
            f.non = true;
            f.excl = None;
        } else {
            let r = match g.fx.last() {
                Some(Fx::Rel(r)) => Some(*r),
                _ => None,
            };
            let n = self.rel_step(r, s);
            if r.is_some() {
                *g.fx.last_mut().unwrap() = Fx::Rel(n);
            } else {
                g.fx.push(Fx::Rel(n));
            }
        }
    }
    fn enter_kind(&self, v: &Val) -> Option<u8> {
        match v {
            Val::Agg(var, f) if *var == self.ev[0] => match f.first() {
                Some(Val::Int(k)) => Some(*k as u8),
                _ => None,
            },
            _ => None,
        }
    }
    /// the innermost open node is closed
    fn close(&mut self, st: &mut State<Self>, site: &Site) {
        let Some(f) = st.g.frames.pop() else {
            if !st.g.err {
                st.g.fx.push(Fx::Close);
            }
            return;
        };
        if st.g.err {
            return;
        }
        let v = st.read_at(f.cell, &[]);
        let Some(k) = self.enter_kind(&v) else {
            self.und.insert(format!("kind of the node closed in {} is not known", site.func));
            st.taint = true;
            return;
        };
        self.obligations += 1;
        self.closes.insert((k, f.st));
        if !f.non {
            return;
        }
        let name = self.gr.kinds[k as usize].clone();
        if !self.gr.nfa.contains_key(&k) {
            self.bad(st, &["C13"], "tree-kind", site, format!("a node of kind {name} is closed without an error having been reported"));
        } else {
            let n = &self.gr.nfa[&k];
            let ps: Vec<u8> = self.fs[f.st as usize].iter().filter(|x| x.0 == k).map(|x| x.1).collect();
            if !ps.iter().any(|p| n.accept[*p as usize]) {
                let why = if ps.is_empty() { "its children are in an order or of kinds the grammar does not allow" } else { "its children are only the beginning of what the grammar demands" };
                self.bad(st, &["C13"], "tree-grammar", site, format!("{name} is accepted although {why}"));
            }
        }
        let mut g = std::mem::take(&mut st.g);
        self.child(&mut g, Sym::K(k));
        st.g = g;
    }
    fn used(&mut self, st: &State<Self>, until: u16, site: &Site) {
        if st.taint || st.g.mode != 1 || st.g.done || st.g.err {
            return;
        }
        let g = &st.g;
        if g.us && (until == 0 || until > 1) {
            self.stale.entry(g.pk).or_insert((site.func.clone(), site.span.clone()));
        }
        let e = self.uses.entry((g.pk, g.ub, until)).or_insert((0, site.func.clone(), site.span.clone()));
        if g.un >= e.0 {
            *e = (g.un, site.func.clone(), site.span.clone());
        }
    }
    fn bad(&mut self, st: &State<Self>, p: &[&str], rule: &str, site: &Site, m: String) {
        if !st.taint {
            self.rep.add(p, rule, site, m);
        }
    }
    fn w(&self, g: &H, i: i32) -> u128 {
        g.win.get(i as usize).cloned().unwrap_or(self.full)
    }
    /// restrict the look-ahead; false: impossible
    fn restrict(&mut self, g: &mut H, i: i32, s: u128) -> bool {
        if i < 0 || i > 6 {
            return true;
        }
        while g.win.len() <= i as usize {
            g.win.push(self.full);
        }
        g.win[i as usize] &= s;
        // nothing follows the end; something precedes a token
        let n = g.win.len();
        for j in 1..n {
            if g.win[j - 1] == self.eof {
                g.win[j] &= self.eof;
            }
        }
        for j in (1..n).rev() {
            if g.win[j] & self.eof == 0 {
                g.win[j - 1] &= !self.eof;
            }
        }
        if g.win.contains(&0) {
            return false;
        }
        while g.win.last() == Some(&self.full) {
            g.win.pop();
        }
        if g.mode == 1 && !g.done && !g.err {
            return !self.moves(g, None).is_empty();
        }
        true
    }
    /// what may come next in the node being built, given the look-ahead
    fn moves(&mut self, g: &H, first: Option<u8>) -> Rc<BTreeSet<Move>> {
        let mut win: Vec<u128> = g.win.iter().skip(g.adv as usize).cloned().collect();
        if let Some(t) = first {
            if win.is_empty() {
                win.push(self.full);
            }
            win[0] &= 1 << t;
        }
        let Some(f) = g.frames.first() else { return Rc::new(BTreeSet::new()) };
        let key = (f.st, f.excl, win.clone());
        if let Some(m) = self.memo.get(&key) {
            return m.clone();
        }
        let mut out = BTreeSet::new();
        let f = g.frames[0].clone();
        for (k, p) in self.fs[f.st as usize].clone().iter() {
            let n = &self.gr.nfa[k];
            for q in &n.follow[*p as usize] {
                match &n.pos[*q] {
                    Some(Pos { sym: Sym::T(t), .. }) => {
                        let w0 = win.first().cloned().unwrap_or(self.full);
                        if w0 >> t & 1 == 1 && self.reach(vec![vec![(*k, *q as u8)]], &win[1.min(win.len())..]) {
                            out.insert(Move::Tok(*t));
                        }
                    }
                    Some(Pos { sym: Sym::K(c), excl }) if f.excl != Some(*c) => {
                        if !out.contains(&Move::Child(*c)) {
                            let mut w = win.clone();
                            if w.is_empty() {
                                w.push(self.full);
                            }
                            w[0] &= !excl;
                            if self.reach(vec![vec![(*k, *q as u8), (*c, 0)]], &w) {
                                out.insert(Move::Child(*c));
                            }
                        }
                    }
                    _ => (),
                }
            }
            if n.accept[*p as usize] && *p != 0 && self.ended(*k, &win) {
                out.insert(Move::End);
            }
        }
        let out = Rc::new(out);
        self.memo.insert(key, out.clone());
        out
    }
    fn ended(&self, k: u8, win: &[u128]) -> bool {
        if win.iter().all(|w| w & self.eof != 0) {
            return true;
        }
        let mut c: Vec<Vec<(u8, u8)>> = self.ctx.get(&k).into_iter().flatten().map(|x| vec![*x]).collect();
        c.dedup();
        self.reach(c, win)
    }
    /// can tokens of the window follow in one of the configurations
    fn reach(&self, start: Vec<Vec<(u8, u8)>>, win: &[u128]) -> bool {
        if win.is_empty() {
            return true;
        }
        let mut seen: HashSet<(usize, Vec<(u8, u8)>)> = HashSet::new();
        let mut q: Vec<(usize, Vec<(u8, u8)>, u128)> = start.into_iter().map(|s| (0, s, 0)).collect();
        while let Some((i, s, ex)) = q.pop() {
            if i == win.len() {
                return true;
            }
            if ex == 0 && !seen.insert((i, s.clone())) {
                continue;
            }
            if s.len() > 60 {
                continue;
            }
            let (k, p) = *s.last().unwrap();
            let n = &self.gr.nfa[&k];
            for x in &n.follow[p as usize] {
                match &n.pos[*x] {
                    Some(Pos { sym: Sym::T(t), .. }) => {
                        if win[i] >> t & 1 == 1 && ex >> t & 1 == 0 {
                            let mut s2 = s.clone();
                            s2.last_mut().unwrap().1 = *x as u8;
                            q.push((i + 1, s2, 0));
                        }
                    }
                    Some(Pos { sym: Sym::K(c), excl }) => {
                        if self.gr.first[c] & win[i] & !excl & !ex != 0 {
                            let mut s2 = s.clone();
                            s2.last_mut().unwrap().1 = *x as u8;
                            s2.push((*c, 0));
                            q.push((i, s2, ex | excl));
                        }
                    }
                    None => (),
                }
            }
            if n.accept[p as usize] && p != 0 {
                let mut s2 = s.clone();
                s2.pop();
                if s2.is_empty() {
                    if win[i..].iter().all(|w| w & self.eof != 0) {
                        return true;
                    }
                    for c in self.ctx.get(&k).into_iter().flatten() {
                        q.push((i, vec![*c], 0));
                    }
                } else {
                    q.push((i, s2, 0));
                }
            }
        }
        false
    }
    fn tokset(&self, s: u128) -> String {
        let v: Vec<&str> = (0..self.gr.toks.len()).filter(|i| s >> i & 1 == 1).map(|i| self.gr.toks[i].as_str()).collect();
        if v.len() > 4 { format!("{} and {} others", v[..4].join(", "), v.len() - 4) } else { v.join(", ") }
    }
    fn mv(&self, m: &Move) -> String {
        match m {
            Move::Tok(t) => format!("the token {}", self.gr.toks[*t as usize]),
            Move::Child(c) => self.gr.kinds[*c as usize].clone(),
            Move::End => "its end".into(),
        }
    }
    fn split(&mut self, st: &State<Self>, i: i32, s: u128) -> (Option<State<Self>>, Option<State<Self>>) {
        let mut y = st.clone();
        let mut n = st.clone();
        let (a, b) = (self.restrict(&mut y.g, i, s), self.restrict(&mut n.g, i, !s & self.full));
        (a.then_some(y), b.then_some(n))
    }
    fn split_outs(&mut self, st: &State<Self>, i: i32, s: u128, neg: bool) -> Outs<Self> {
        let (y, n) = self.split(st, i, s);
        y.into_iter().map(|s| (s, b(!neg))).chain(n.into_iter().map(|s| (s, b(neg)))).collect()
    }
    /// the event "token consumed"
    fn advance(&mut self, st: &State<Self>, site: &Site) -> Vec<State<Self>> {
        let mut outs = vec![];
        let g = &st.g;
        let set = self.w(g, g.adv);
        if set & self.eof != 0 && !g.err {
            // no token: the tree cannot be built
            self.bad(st, &["C13"], "event-without-token", site, "an event for a token is recorded although there may be no token left".into());
        }
        let set = set & !self.eof;
        let mut seen = HashSet::new();
        if g.err {
            let mut s = st.clone();
            s.g.adv += 1;
            s.g.any = true;
            s.g.prog = true;
            s.g.cnt = (s.g.cnt + 1).min(s.g.la + 1);
            return vec![s];
        }
        self.used(st, 1, site);
        for t in 0..self.gr.toks.len() as u8 {
            if set >> t & 1 == 0 {
                continue;
            }
            let mut s = st.clone();
            s.g.us = g.mode == 1;
            if g.mode == 1 && !g.done {
                let m = self.moves(g, Some(t));
                if m.is_empty() {
                    continue;
                }
                if g.frames.last().is_some_and(|f| f.empty) || !m.contains(&Move::Tok(t)) {
                    let w: Vec<String> = m.iter().map(|m| self.mv(m)).collect();
                    let k = self.gr.kinds[self.fs[g.frames[0].st as usize][0].0 as usize].clone();
                    let t = self.gr.toks[t as usize].clone();
                    self.bad(st, &["C12"], "wrong-choice", site, format!("{t} is consumed inside {k} where the grammar continues with {}", w.join(" or ")));
                    continue;
                }
            }
            self.child(&mut s.g, Sym::T(t));
            s.g.adv += 1;
            s.g.any = true;
            s.g.prog = true;
            s.g.cnt = (s.g.cnt + 1).min(s.g.la + 1);
            if g.mode == 1 {
                s.g.win = s.g.win.iter().skip(s.g.adv as usize).cloned().collect();
                let pad = s.g.adv as usize;
                let mut w = vec![self.full & !self.eof; if s.g.win.is_empty() { 0 } else { pad }];
                w.append(&mut s.g.win);
                s.g.win = w;
            } else if s.g.win.len() as i32 > g.adv {
                s.g.win[g.adv as usize] = self.full & !self.eof;
            }
            if seen.insert(s.g.clone()) {
                outs.push(s);
            }
        }
        outs
    }
    fn rebase(&self, st: &mut State<Self>) {
        // without the events nothing can have been consumed here
        fn evts(v: &Val) -> bool {
            match v {
                Val::G(G { t: EVTS, .. }) => true,
                Val::Agg(_, f) => f.iter().any(evts),
                _ => false,
            }
        }
        if st.g.adv == 0 || !st.mem.values().any(|o| matches!(o, Obj::V(v) if evts(v))) {
            return;
        }
        // the smallest position still in use
        let mut lo = st.g.adv;
        fn scan(v: &Val, lo: &mut i32) {
            match v {
                Val::G(G { t: POS, x, .. }) => *lo = (*lo).min(*x),
                Val::Agg(_, f) | Val::List(f) => f.iter().for_each(|v| scan(v, lo)),
                _ => (),
            }
        }
        if st.g.err {
            // from the first error on only the position counts
            lo = i32::MAX;
        }
        for o in st.mem.values() {
            if let Obj::V(v) = o {
                scan(v, &mut lo);
            }
        }
        if st.g.err {
            if lo == i32::MAX {
                return;
            }
            st.g.adv = lo;
        }
        if lo <= 0 {
            return;
        }
        fn shift(v: &mut Val, d: i32) {
            match v {
                Val::G(G { t: POS, x, .. }) => *x -= d,
                Val::G(G { t: TOK | TK | TP | TL, x, .. }) if *x != LAST => {
                    *x -= d;
                    if *x < 0 {
                        *v = Val::Top;
                    }
                }
                Val::Agg(_, f) | Val::List(f) => {
                    if has(f) {
                        Rc::make_mut(f).iter_mut().for_each(|v| shift(v, d))
                    }
                }
                _ => (),
            }
        }
        fn has(f: &[Val]) -> bool {
            f.iter().any(|v| match v {
                Val::G(G { t: POS | TOK | TK | TP | TL, .. }) => true,
                Val::Agg(_, f) | Val::List(f) => has(f),
                _ => false,
            })
        }
        for o in st.mem.values_mut() {
            if let Obj::V(v) = o {
                shift(v, lo);
            }
        }
        st.g.adv -= lo;
        st.g.moved = true;
        let n = (lo as usize).min(st.g.win.len());
        st.g.win.drain(..n);
    }
    fn contains(&mut self, st: &State<Self>, l: &[Val], x: &Val) -> Option<Outs<Self>> {
        let Val::G(G { t: TK, x: i, .. }) = x else { return None };
        let mut s = 0u128;
        for v in l {
            match st.load_all(v) {
                Val::Int(k) => s |= 1 << k,
                _ => return None,
            }
        }
        Some(self.split_outs(st, *i, s, false))
    }
    fn list_kind(&self, ir: &Ir, c: &Callee) -> u8 {
        match c.dargs.first().map(|t| ir.types[*t].s.as_str()) {
            Some(s) if s.ends_with("SyntaxEvent") => EVTS,
            Some("std::string::String") => ERRS,
            _ => 0,
        }
    }
    fn late(&mut self, st: &State<Self>, site: &Site) {
        self.bad(st, &["C14"], "error-late", site, "a syntax error is reported only after a token that fits no production has been passed".into());
    }
    fn error(&mut self, st: &State<Self>, v: &Val, site: &Site) -> Outs<Self> {
        let mut s = st.clone();
        self.errsites.insert(format!("{} {}", site.func, site.span));
        // the position in the message
        if let Val::Agg(crate::stdlib::FMT, f) = v {
            let lit = |i: usize, want: &str| matches!(f.get(i), Some(Val::Str(s)) if &**s == want);
            let head = match (&f[0], f.get(1)) {
                // the name is a constant text here
                (Val::Str(a), _) if a.starts_with("\u{1}name:") && a.len() == 6 => Some(1),
                _ => None,
            };
            let ok = match head {
                Some(i) => {
                    lit(i + 1, ":") && matches!(f.get(i + 3), Some(Val::Str(s)) if s.starts_with(": ")) && {
                        match (&f[i], &f[i + 2]) {
                            (Val::Int(1), Val::Int(1)) => !s.g.any && self.w(&s.g, 0) == self.eof,
                            (Val::G(G { t: TL, x: a, y: 0, .. }), Val::G(G { t: TL, x: c, y: 2, .. })) => {
                                a == c
                                    && if *a == LAST {
                                        self.w(&s.g, s.g.adv) == self.eof
                                    } else {
                                        *a == s.g.adv || (*a == s.g.adv + 1 && self.w(&s.g, s.g.adv + 1) & self.eof == 0)
                                    }
                            }
                            (Val::Top, _) | (_, Val::Top) | (Val::Any, _) | (_, Val::Any) => true,
                            _ => false,
                        }
                    }
                }
                None => f.iter().any(|v| matches!(v, Val::Top | Val::Any)) && f.len() < 3,
            };
            self.obligations += 1;
            if !ok {
                if std::env::var("ENGINE_DEBUG").is_ok() {
                    eprintln!("message {f:?} adv {}", st.g.adv);
                }
                self.bad(st, &["C14"], "error-position", site, "a syntax error is not reported as name:line:column of the first character of the offending token (the last token at the end of the input)".into());
            }
        } else if let Val::Str(_) = v {
            self.bad(st, &["C14"], "error-position", site, "a syntax error is reported without file name, line and column".into());
        }
        // the first token that fits nothing is behind the position of the message already
        if st.g.mode == 0 && !st.g.err && st.g.frames.iter().any(|f| f.non && self.fs[f.st as usize].is_empty()) {
            self.late(st, site);
        }
        if st.g.mode == 1 && !st.g.err {
            if !st.g.done {
                let m = self.moves(&st.g, None);
                if !m.is_empty() {
                    let k = self.gr.kinds[self.fs[st.g.frames[0].st as usize][0].0 as usize].clone();
                    let w: Vec<String> = m.iter().map(|m| self.mv(m)).collect();
                    let t = self.tokset(self.w(&st.g, st.g.adv));
                    self.bad(st, &["C12"], "valid-rejected", site, format!("an error is reported inside {k} although {} may follow (next: {t})", w.join(" or ")));
                }
            }
            return vec![];
        }
        s.g.err = true;
        s.g.frames.clear();
        s.g.fx.clear();
        s.g.pend = None;
        vec![(s, unit())]
    }
}
fn tg(t: u8, x: i32, y: i32) -> Val {
    g(t, 0, x, y)
}

impl<'g> Client for Parse<'g> {
    type N = NoNode;
    type H = H;
    fn agg(&mut self, ir: &Ir, ty: usize, var: u32, vals: &[Val], _st: &State<Self>) -> Option<Val> {
        let t = &ir.types[ty];
        if !t.local || t.is_enum || !vals.iter().any(|v| matches!(v, Val::G(G { t: TOKS, .. }))) {
            return None;
        }
        let fs = &t.v[0].f;
        let us: Vec<usize> = (0..fs.len()).filter(|i| ir.types[fs[*i].1].s == "usize").collect();
        let pos = match us.as_slice() {
            [i] => Some(*i),
            v => v.iter().cloned().find(|i| fs[*i].0.starts_with("pos")),
        };
        let mut vals = vals.to_vec();
        if let Some(i) = pos {
            if vals[i] == Val::Int(0) {
                vals[i] = tg(POS, 0, 0);
            }
        }
        for (i, v) in vals.iter_mut().enumerate() {
            if ir.types[fs[i].1].s == "u32" && matches!(v, Val::Int(n) if *n > 1) {
                *v = tg(LIFE, 0, 0);
            }
        }
        Some(agg(var, vals))
    }
    fn builtin(&mut self, ir: &Ir, c: &Callee, a: &[Val], st: &State<Self>, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let one = |st: State<Self>, v: Val| B::Outs(vec![(st, v)]);
        if st.g.mode == 1 && !st.g.err {
            if let Some((k, rv)) = c.f.and_then(|f| self.prod.get(&f)).cloned() {
                if !st.g.done && !st.g.frames.is_empty() {
                    // a production: what it accepts is decided on its own
                    let m = self.moves(&st.g, None);
                    let mut outs = vec![];
                    let mut calls = vec![];
                    let inside = st.g.frames.last().unwrap().empty;
                    if m.contains(&Move::Child(k)) && !inside {
                        self.used(st, 2 + k as u16, site);
                        let mut s = st.clone();
                        s.g.ub = 2 + k as u16;
                        s.g.un = 0;
                        s.g.us = false;
                        let mut o: BTreeSet<(u8, u8)> = BTreeSet::new();
                        let win: Vec<u128> = s.g.win.iter().skip(s.g.adv as usize).cloned().collect();
                        for (k0, p) in self.fs[s.g.frames[0].st as usize].clone().iter() {
                            for q in self.step(*k0, *p, Sym::K(k)) {
                                let mut w = win.clone();
                                if w.is_empty() {
                                    w.push(self.full);
                                }
                                if let Some(Pos { excl, .. }) = &self.gr.nfa[k0].pos[q as usize] {
                                    w[0] &= !excl;
                                }
                                if self.reach(vec![vec![(*k0, q), (k, 0)]], &w) {
                                    o.insert((*k0, q));
                                }
                            }
                        }
                        let id = self.fs_id(o.into_iter().collect());
                        s.g.frames[0].st = id;
                        s.g.frames[0].non = true;
                        s.g.frames[0].excl = None;
                        s.g.win.clear();
                        s.g.any = true;
                        s.g.prog = true;
                        s.g.moved = true;
                        let d = s.g.adv;
                        s.g.adv = 0;
                        for o in s.mem.values_mut() {
                            if let Obj::V(v) = o {
                                fn fix(v: &mut Val, d: i32) {
                                    match v {
                                        Val::G(G { t: POS, x, .. }) if *x == d => *x = 0,
                                        Val::G(G { t: POS | TOK | TK | TP | TL, .. }) => *v = Val::Top,
                                        Val::Agg(_, f) | Val::List(f) => Rc::make_mut(f).iter_mut().for_each(|v| fix(v, d)),
                                        _ => (),
                                    }
                                }
                                fix(v, d);
                            }
                        }
                        outs.push((s, rv));
                    }
                    if m.iter().any(|x| *x != Move::Child(k)) {
                        let mut s = st.clone();
                        if m.contains(&Move::Child(k)) {
                            s.g.frames[0].excl = Some(k);
                        }
                        calls.push((c.f.unwrap(), a.to_vec(), s));
                    }
                    return B::Mix(outs, calls);
                }
            }
        }
        match d {
            "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity" => {
                let k = self.list_kind(ir, c);
                if k != 0 {
                    return one(st.clone(), tg(k, 0, 0));
                }
            }
            "std::vec::Vec::<T, A>::push" => match st.load_all(&a[0]) {
                Val::G(G { t: EVTS, .. }) => {
                    let mut s = st.clone();
                    let Val::Agg(var, _) = &a[1] else {
                        s.taint = true;
                        return one(s, unit());
                    };
                    if *var == self.ev[2] {
                        return B::Outs(self.advance(st, site).into_iter().map(|s| (s, unit())).collect());
                    }
                    if s.g.err {
                        return one(s, unit());
                    }
                    // the position in the tokens goes along with the events
                    let mut apart = false;
                    for o in s.mem.values() {
                        if let Obj::V(Val::Agg(_, f)) = o {
                            if f.iter().any(|v| matches!(v, Val::G(G { t: TOKS, .. }))) {
                                let ps: Vec<i32> = f.iter().filter_map(|v| if let Val::G(G { t: POS, x, .. }) = v { Some(*x) } else { None }).collect();
                                apart |= ps.len() == 1 && ps[0] != s.g.adv;
                            }
                        }
                    }
                    if apart {
                        self.bad(&s, &["C13"], "token-skipped", site, "a token is passed over without an event, or used for two".into());
                        s.taint = true;
                        return one(s, unit());
                    }
                    if *var == self.ev[1] {
                        if s.g.mode == 1 && !s.g.done && s.g.frames.len() == 1 {
                            self.used(st, 0, site);
                            let m = self.moves(&s.g, None);
                            let k = self.fs[s.g.frames[0].st as usize].first().map(|x| x.0).unwrap_or(0);
                            let w0 = self.w(&s.g, s.g.adv);
                            let k = self.gr.kinds[k as usize].clone();
                            for t in 0..self.gr.toks.len() as u8 {
                                if w0 >> t & 1 == 1 && m.iter().any(|m| *m != Move::End) {
                                    let mt = self.moves(&s.g, Some(t));
                                    if !mt.contains(&Move::End) {
                                        if let Some(m) = mt.iter().find(|m| **m != Move::End) {
                                            let txt = format!("{k} is closed although {} may still follow (next: {})", self.mv(m), self.gr.toks[t as usize]);
                                            self.bad(st, &["C12"], "closed-early", site, txt);
                                            break;
                                        }
                                    }
                                }
                            }
                            s.g.done = true;
                            s.g.frames.clear();
                            return one(s, unit());
                        }
                        if s.g.mode == 1 && !s.g.done {
                            s.g.frames.pop();
                            return one(s, unit());
                        }
                        self.close(&mut s, site);
                        return one(s, unit());
                    }
                    // a node is opened
                    let cell = match s.g.pend.take() {
                        Some(i) => i,
                        None => s.alloc(Obj::V(Val::Un)),
                    };
                    s.mem.insert(cell, Obj::V(a[1].clone()));
                    if s.g.mode == 1 {
                        if s.g.done {
                            s.g.err = true;
                            return one(s, unit());
                        }
                        if s.g.frames[0].cell == 0 {
                            s.g.frames[0].cell = cell;
                        } else {
                            s.g.frames.push(Fr { cell, st: 0, non: false, excl: None, empty: true });
                        }
                        return one(s, unit());
                    }
                    let fs = self.start();
                    s.g.frames.push(Fr { cell, st: fs, non: false, excl: None, empty: false });
                    return one(s, unit());
                }
                Val::G(G { t: ERRS, .. }) => return B::Outs(self.error(st, &a[1], site)),
                _ => (),
            },
            "std::vec::Vec::<T, A>::len" | "core::slice::<impl [T]>::len" => match st.load_all(&a[0]) {
                Val::G(G { t: EVTS, .. }) => {
                    let mut s = st.clone();
                    let cell = s.alloc(Obj::V(Val::Un));
                    s.g.pend = Some(cell);
                    if s.g.err {
                        s.g.pend = None;
                        s.g.prog |= false;
                    }
                    return one(s, g(MARK, cell, 0, 0));
                }
                Val::G(G { t: TOKS, .. }) => return one(st.clone(), tg(TLEN, 0, 0)),
                Val::G(G { t: ERRS, .. }) => {
                    let e = st.g.err;
                    return one(st.clone(), if e { tg(GE, 1, 0) } else { Val::Int(0) });
                }
                _ => (),
            },
            "std::vec::Vec::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" => match st.load_all(&a[0]) {
                Val::G(G { t: TOKS, .. }) => {
                    if st.g.any {
                        return one(st.clone(), b(false));
                    }
                    let o = self.split_outs(st, 0, self.eof, false);
                    return B::Outs(o);
                }
                Val::G(G { t: ERRS, .. }) => return one(st.clone(), b(!st.g.err)),
                _ => (),
            },
            "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" | "std::convert::AsRef::as_ref" => {
                if let v @ Val::G(G { t: EVTS | TOKS | ERRS, .. }) = st.load_all(&a[0]) {
                    return one(st.clone(), v);
                }
            }
            "std::ops::Index::index" | "std::ops::IndexMut::index_mut" | "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => {
                let get = last.starts_with("get");
                match (st.load_all(&a[0]), a.get(1).cloned()) {
                    (Val::G(G { t: EVTS, .. }), Some(Val::G(G { t: MARK, id, .. }))) => {
                        let mut s = st.clone();
                        let id = if s.mem.contains_key(&id) { id } else { s.alloc(Obj::V(Val::Un)) };
                        let r = Val::Ref(Ptr { b: Base::Obj(id), p: vec![] });
                        return one(s, if get { some(r) } else { r });
                    }
                    (Val::G(G { t: TOKS, .. }), Some(Val::G(G { t: POS, x, .. }))) => {
                        let (y, n) = self.split(st, x, self.full & !self.eof);
                        let mut outs = vec![];
                        if let Some(s) = y {
                            let v = tg(TOK, x, 0);
                            outs.push((s, if get { some(v) } else { v }));
                        }
                        if let Some(s) = n {
                            if get {
                                outs.push((s, none()));
                            } else {
                                self.panic(ir, "token index out of range", &s, site);
                            }
                        }
                        return B::Outs(outs);
                    }
                    (Val::G(G { t: TOKS, .. }), _) => {
                        let mut s = st.clone();
                        s.taint = true;
                        return one(s, Val::Top);
                    }
                    _ => (),
                }
            }
            "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::first" => {
                if let Val::G(G { t: TOKS, .. }) = st.load_all(&a[0]) {
                    let v = if last == "last" { tg(TOK, LAST, 0) } else { Val::Top };
                    if st.g.any {
                        return one(st.clone(), some(v));
                    }
                    // nothing consumed yet: empty exactly when there is no current token
                    let (y, n) = self.split(st, 0, self.eof);
                    let mut outs = vec![];
                    outs.extend(y.map(|s| (s, none())));
                    outs.extend(n.map(|s| (s, some(v))));
                    return B::Outs(outs);
                }
            }
            "core::slice::<impl [T]>::contains" => {
                if let Val::List(l) = st.load_all(&a[0]) {
                    let x = st.load_all(&a[1]);
                    if let Some(o) = self.contains(st, &l, &x) {
                        return B::Outs(o);
                    }
                }
            }
            "std::cell::Cell::<T>::new" => {
                if let Val::Int(n @ 2..) = a[0] {
                    self.budget = Some(self.budget.unwrap_or(n).min(n));
                    return one(st.clone(), tg(LIFE, 0, 0));
                }
            }
            "std::cell::Cell::<T>::set" => {
                if let (Val::Ref(p), Val::Int(n)) = (&a[0], &a[1]) {
                    if *n > 1 {
                        let mut s = st.clone();
                        self.budget = Some(self.budget.unwrap_or(*n).min(*n));
                        if s.g.mode == 1 {
                            s.g.ub = 1;
                            s.g.un = 0;
                            s.g.us = false;
                        }
                        s.write_ptr(p, tg(LIFE, 0, 0));
                        return one(s, unit());
                    }
                }
            }
            _ if (last == "eq" || last == "ne") && a.len() == 2 && d.contains("PartialEq") => {
                let (x, y) = (st.load_all(&a[0]), st.load_all(&a[1]));
                if matches!(x, Val::G(_)) || matches!(y, Val::G(_)) {
                    let o = self.bin(ir, if last == "eq" { "Eq" } else { "Ne" }, &x, &y, st.clone(), false, site);
                    return B::Outs(o);
                }
            }
            _ => (),
        }
        let _ = ir;
        B::No
    }
    fn bin(&mut self, _ir: &Ir, op: &str, x: &Val, y: &Val, st: State<Self>, ovf: bool, _site: &Site) -> Outs<Self> {
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        let wrap = |v: Val, o: i128| if ovf { agg(0, vec![v, Val::Int(o)]) } else { v };
        match (base, x, y) {
            ("Add", Val::G(p @ G { t: POS, .. }), Val::Int(n)) | ("Add", Val::Int(n), Val::G(p @ G { t: POS, .. })) => {
                let x = p.x + *n as i32;
                let v = if x - st.g.adv > 6 { Val::Top } else { tg(POS, x, 0) };
                vec![(st, wrap(v, 0))]
            }
            ("Sub", Val::G(p @ G { t: POS, .. }), Val::Int(n)) => {
                if p.x >= *n as i32 {
                    vec![(st, wrap(tg(POS, p.x - *n as i32, 0), 0))]
                } else {
                    vec![(st, wrap(Val::Top, 0))]
                }
            }
            ("Sub", Val::G(G { t: LIFE, .. }), Val::Int(1)) => {
                let mut s = st.clone();
                s.g.prog = true;
                if st.g.mode == 1 && !st.g.done {
                    s.g.un = (s.g.un + 1).min(400);
                }
                let mut o = vec![(s.clone(), wrap(tg(LIFE, 0, 0), 0))];
                if st.g.mode == 0 {
                    o.push((s, wrap(Val::Int(0), 0)));
                }
                o
            }
            ("Sub", Val::Int(_), Val::G(_)) => vec![(st, wrap(Val::Top, 0))],
            (_, Val::G(G { t: LIFE, .. }), Val::Int(0)) => {
                let v = match base {
                    "Eq" | "Le" => b(false),
                    "Ne" | "Gt" => b(true),
                    "Ge" => b(true),
                    "Lt" => b(false),
                    _ => Val::Top,
                };
                vec![(st, v)]
            }
            (_, Val::G(G { t: TK, x, .. }), Val::Int(k)) | (_, Val::Int(k), Val::G(G { t: TK, x, .. })) if base == "Eq" || base == "Ne" => self.split_outs(&st, *x, 1 << k, base == "Ne"),
            (_, Val::G(G { t: POS, x, .. }), Val::G(G { t: TLEN, .. })) => {
                // is there a token at that place
                let (y, n) = self.split(&st, *x, self.full & !self.eof);
                let f = |yes: bool| match base {
                    "Lt" => b(yes),
                    "Ge" => b(!yes),
                    "Eq" if *x == 0 || yes => b(!yes),
                    "Ne" if *x == 0 || yes => b(yes),
                    _ => Val::Top,
                };
                y.into_iter().map(|s| (s, f(true))).chain(n.into_iter().map(|s| (s, f(false)))).collect()
            }
            (_, Val::G(G { t: TLEN, .. }), Val::G(G { t: POS, x, .. })) => {
                let (y, n) = self.split(&st, *x, self.full & !self.eof);
                let f = |yes: bool| match base {
                    "Gt" => b(yes),
                    "Le" => b(!yes),
                    "Eq" if *x == 0 || yes => b(!yes),
                    "Ne" if *x == 0 || yes => b(yes),
                    _ => Val::Top,
                };
                y.into_iter().map(|s| (s, f(true))).chain(n.into_iter().map(|s| (s, f(false)))).collect()
            }
            _ => vec![(st, wrap(Val::Top, 0))],
        }
    }
    fn switch(&mut self, _ir: &Ir, gv: &G, t: &[i128], st: &State<Self>) -> Option<Vec<(State<Self>, usize)>> {
        if gv.t != TK {
            return None;
        }
        let mut out = vec![];
        let mut rest = st.clone();
        let mut ok = true;
        for (i, k) in t.iter().enumerate() {
            let (y, n) = self.split(&rest, gv.x, 1 << k);
            if let Some(s) = y {
                out.push((s, i));
            }
            match n {
                Some(s) => rest = s,
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            out.push((rest, t.len()));
        }
        Some(out)
    }
    fn norm(&mut self, gv: &G, st: &State<Self>) -> Option<Val> {
        if gv.t == TK && gv.x >= 0 {
            let w = self.w(&st.g, gv.x);
            if w.count_ones() == 1 {
                return Some(Val::Int(w.trailing_zeros() as i128));
            }
        }
        None
    }
    fn field(&mut self, gv: &G, i: u32, _st: &State<Self>) -> Option<Val> {
        match gv.t {
            TOK => match self.tok_fields.get(i as usize).map(|s| s.as_str()) {
                Some("kind") => Some(if gv.x == LAST { Val::Top } else { tg(TK, gv.x, 0) }),
                Some("start") => Some(tg(TP, gv.x, 0)),
                Some("end") => Some(tg(TP, gv.x, 1)),
                _ => Some(Val::Top),
            },
            TP => match self.pos_fields.get(i as usize).map(|s| s.as_str()) {
                Some("line") => Some(tg(TL, gv.x, gv.y)),
                Some("col") => Some(tg(TL, gv.x, 2 + gv.y)),
                Some("pos") => Some(tg(TL, gv.x, 4 + gv.y)),
                _ => Some(tg(TL, gv.x, 6)),
            },
            _ => None,
        }
    }
    fn gc(&mut self, st: &mut State<Self>, _o: &HashSet<Id>, _r: &HashSet<Id>, _site: &Site) {
        self.rebase(st);
    }
    fn at_exit(&mut self, ir: &Ir, f: usize, st: &mut State<Self>) {
        let g = &mut st.g;
        if g.mode == 0 && ir.types[ir.fns[f].locals[0]].s == "()" {
            // what a procedure found out about the next token is of no use to its caller,
            // except that there is none
            let end = !g.err && g.win.get(g.adv as usize) == Some(&self.eof);
            g.win.clear();
            if end {
                g.win.resize(g.adv as usize, self.full);
                g.win.push(self.eof);
            }
            g.same = true;
        }
    }
    fn enter(&mut self, ir: &Ir, f: usize, st: &State<Self>, map: &HashMap<Id, Id>, _owned: &HashSet<Id>) -> H {
        let mut g = st.g.clone();
        g.rename(&|i| map.get(&i).cloned());
        g.moved = false;
        g.cnt = 0;
        g.same = false;
        if g.mode == 0 {
            g.fx.clear();
            g.frames.clear();
            if ir.types[ir.fns[f].locals[0]].s == "()" {
                for w in &mut g.win {
                    if w.count_ones() > 20 {
                        *w = if *w & self.eof == 0 { self.full & !self.eof } else { self.full };
                    }
                }
                while g.win.last() == Some(&self.full) {
                    g.win.pop();
                }
            }
        }
        g.la = (g.win.len() as i32 - g.adv).max(0) as u8;
        g
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut State<Self>, exit: H, shared: &HashSet<Id>, site: &Site) {
        if exit.moved {
            fn fix(v: &mut Val) {
                match v {
                    Val::G(G { t: POS | TOK | TK | TP | TL, x, .. }) if *x != LAST => *v = Val::Top,
                    Val::Agg(_, f) | Val::List(f) if f.iter().any(|v| matches!(v, Val::G(_) | Val::Agg(..) | Val::List(_))) => Rc::make_mut(f).iter_mut().for_each(fix),
                    _ => (),
                }
            }
            for (i, o) in st.mem.iter_mut() {
                if !shared.contains(i) {
                    if let Obj::V(v) = o {
                        fix(v);
                    }
                }
            }
        }
        let caller = std::mem::take(&mut st.g);
        let moved = caller.moved || exit.moved;
        if exit.mode == 1 {
            st.g = exit;
            st.g.moved = moved;
            st.g.la = caller.la;
            st.g.cnt = (st.g.cnt + caller.cnt).min(caller.la + 1);
            return;
        }
        let mut g = exit.clone();
        g.moved = moved;
        g.fx = caller.fx;
        g.frames = caller.frames;
        let many = exit.cnt > exit.la;
        g.la = caller.la;
        g.cnt = (exit.cnt + caller.cnt).min(caller.la + 1);
        if exit.same {
            // what was known before about the tokens that are still to come
            let end = !exit.win.is_empty();
            g.same = caller.same;
            g.win = vec![self.full; g.adv as usize];
            if !many {
                g.win.extend(caller.win.iter().skip(caller.adv as usize + exit.cnt as usize));
            }
            if end {
                while g.win.len() <= g.adv as usize {
                    g.win.push(self.full);
                }
                let i = g.adv as usize;
                g.win[i] &= self.eof;
                if g.win[i] == 0 {
                    // cannot be
                    g.win[i] = self.eof;
                }
            }
            while g.win.last() == Some(&self.full) {
                g.win.pop();
            }
        }
        if g.err {
            if !caller.err && g.frames.iter().any(|f| f.non && self.fs[f.st as usize].is_empty()) {
                self.late(st, site);
            }
            g.fx.clear();
            g.frames.clear();
            st.g = g;
            return;
        }
        st.g = g;
        for e in exit.fx {
            match e {
                Fx::Close => self.close(st, site),
                Fx::Rel(r) => {
                    let mut g = std::mem::take(&mut st.g);
                    if let Some(f) = g.frames.last() {
                        let n = self.fs_rel(f.st, r);
                        let f = g.frames.last_mut().unwrap();
                        f.st = n;
                        f.non = true;
                    } else if let Some(Fx::Rel(q)) = g.fx.last().cloned() {
                        let n = self.rel_rel(q, r);
                        *g.fx.last_mut().unwrap() = Fx::Rel(n);
                    } else {
                        g.fx.push(Fx::Rel(r));
                    }
                    st.g = g;
                }
            }
        }
        st.g.frames.extend(exit.frames);
        if st.g.frames.len() > 5 && st.g.mode == 0 {
            self.bad(st, &["C13", "C04"], "events-unbalanced", site, "nodes are opened and not closed again".into());
            st.g.frames.clear();
            st.g.fx.clear();
            st.taint = true;
        }
    }
    fn root_exit(&mut self, _ir: &Ir, st: &State<Self>, site: &Site) {
        if st.g.mode == 1 || st.taint || st.g.err {
            return;
        }
        let Some(k) = self.want else { return };
        let name = self.gr.kinds[k as usize].clone();
        self.obligations += 1;
        if !st.g.frames.is_empty() {
            self.bad(st, &["C13", "C04"], "events-unbalanced", site, format!("parsing {name} ends with a node that is not closed"));
            return;
        }
        if self.w(&st.g, st.g.adv) != self.eof {
            self.bad(st, &["C13"], "tokens-left", site, format!("parsing {name} ends without an error although tokens may be left"));
        }
        let want = self.rel_step(None, Sym::K(k));
        match st.g.fx.as_slice() {
            [] => (),
            [Fx::Rel(r)] if *r == want => (),
            _ => self.bad(st, &["C13", "C04"], "wrong-root", site, format!("parsing {name} does not produce one tree of that kind")),
        }
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &State<Self>, site: &Site) {
        if what.contains("MisalignedPointer") || what.contains("NullPointer") {
            return;
        }
        self.bad(st, &["C06"], "panic", site, format!("the parser can panic: {}", what.chars().take(80).collect::<String>()));
    }
}

pub fn run(ir: &Ir, gr: &Gram) -> serde_json::Value {
    let mut und: BTreeMap<String, usize> = BTreeMap::new();
    let entry = ir.fns.iter().position(|f| f.krate == "mofmt" && f.args == 3 && {
        let r = &ir.types[f.locals[0]];
        r.k == "tuple" && r.f.len() == 2 && ir.types[r.f[0]].s.contains("SyntaxEvent") && ir.types[r.f[1]].s.contains("String")
    });
    let Some(entry) = entry else {
        return serde_json::json!({"client": "parse", "findings": [], "undecided": {"no parser entry function": 1}});
    };
    let mut e = Eng::new(ir, Parse::new(ir, gr));
    for k in gr.nfa.keys() {
        let mut st: State<Parse> = State::new();
        st.mem.insert(1, Obj::V(e.c.name_arg.clone()));
        st.mem.insert(2, Obj::V(tg(TOKS, 0, 0)));
        st.mem.insert(3, Obj::V(Val::Int(*k as i128)));
        e.c.want = Some(*k);
        e.run(vec![(entry, st)]);
    }
    if e.debug {
        e.profile();
        if let Ok(n) = std::env::var("ENGINE_SHOW") {
            e.show_entries(&n, 8);
        }
    }
    let errkind = gr.kidx.get("Error").cloned();
    let _ = errkind;
    // productions
    let mut prods: HashMap<usize, (BTreeSet<Option<u8>>, usize, Val)> = HashMap::new();
    let kind_of: HashMap<u32, u8> = gr.nfa.keys().map(|k| (e.c.rel_step(None, Sym::K(*k)), *k)).collect();
    for (i, s) in e.sums.iter().enumerate() {
        for x in &s.exits {
            if x.g.err || x.taint {
                continue;
            }
            let k = match x.g.fx.as_slice() {
                [] if x.g.frames.is_empty() => None,
                [Fx::Rel(r)] if x.g.frames.is_empty() => Some(kind_of.get(r).cloned().unwrap_or(255)),
                _ => Some(255),
            };
            let rv = match x.mem.get(&0) {
                Some(Obj::V(v)) => v.clone(),
                _ => Val::Top,
            };
            let p = prods.entry(s.f).or_insert((BTreeSet::new(), i, rv.clone()));
            p.0.insert(k);
            if p.2 != rv {
                p.2 = Val::Top;
            }
        }
    }
    let mut roots = vec![];
    for (f, (ks, s, rv)) in &prods {
        if e.debug {
            eprintln!("PROD {} {:?}", ir.fns[*f].path, ks.iter().map(|k| k.map(|k| gr.kinds.get(k as usize).cloned())).collect::<Vec<_>>());
        }
        let ks: Vec<u8> = ks.iter().flatten().cloned().collect();
        if ks.len() == 1 && ks[0] != 255 && *f != entry && ir.fns[*f].args == 1 {
            e.c.prod.insert(*f, (ks[0], rv.clone()));
            roots.push((*f, *s, ks[0]));
        }
    }
    roots.sort();
    let covered: BTreeSet<u8> = roots.iter().map(|r| r.2).collect();
    let n0 = e.sums.len();
    let stall: BTreeSet<(usize, usize)> = e.stalls().into_iter().collect();
    let mut nprod = 0;
    for k in gr.nfa.keys() {
        if !covered.contains(k) {
            und.insert(format!("no production function found for {}", gr.kinds[*k as usize]), 1);
        }
    }
    for k in e.cut.keys() {
        und.insert(format!("paths in {k} that depend on an unknown value"), 1);
    }
    if !und.is_empty() || !e.undecided.is_empty() || !e.c.und.is_empty() {
        // what a production accepts can only be decided when all are known
        und.insert("whether valid sources are accepted".into(), 1);
        roots.clear();
    }
    for (f, s, k) in &roots {
        let mut st = e.sums[*s].entry.clone();
        let fs = e.c.fs_id(vec![(*k, 0)]);
        st.taint = false;
        for o in st.mem.values_mut() {
            if let Obj::V(Val::Agg(_, f)) = o {
                for v in Rc::make_mut(f).iter_mut() {
                    if matches!(v, Val::G(G { t: POS, .. })) {
                        *v = tg(POS, 0, 0);
                    }
                    if *v == Val::Int(0) {
                        *v = tg(LIFE, 0, 0);
                    }
                }
            }
        }
        st.g = H { mode: 1, pk: *k, frames: vec![Fr { cell: 0, st: fs, non: false, excl: None, empty: false }], ..H::default() };
        let was = e.c.prod.remove(f);
        // the function itself must be interpreted, calls of it inside are not
        let _ = was;
        e.c.prod.insert(*f, was.unwrap());
        nprod += 1;
        e.run(vec![(*f, st)]);
    }
    // the look-ahead budget suffices for every valid input
    let mut most = 0i64;
    if let Some(budget) = e.c.budget {
        let uses = std::mem::take(&mut e.c.uses);
        let mut fst: BTreeMap<u16, i64> = BTreeMap::new();
        let mut lst: BTreeMap<u16, i64> = BTreeMap::new();
        let mut stable = false;
        for _ in 0..400 {
            stable = true;
            for ((p, b, u), (n, _, _)) in &uses {
                let p = *p as u16 + 2;
                if *b == 0 && *u != 0 {
                    let v = *n as i64 + if *u == 1 { 0 } else { fst.get(u).cloned().unwrap_or(0) };
                    let x = fst.entry(p).or_insert(0);
                    if v > *x {
                        *x = v;
                        stable = false;
                    }
                }
                if *u == 0 && *b > 0 {
                    let v = *n as i64 + if *b == 1 { 0 } else { lst.get(b).cloned().unwrap_or(0) };
                    let x = lst.entry(p).or_insert(0);
                    if v > *x {
                        *x = v;
                        stable = false;
                    }
                }
            }
            if stable {
                break;
            }
        }
        let mut rep = vec![];
        for ((p, b, u), (n, func, span)) in &uses {
            let v = *n as i64 + lst.get(b).cloned().unwrap_or(0) + if *u > 1 { fst.get(u).cloned().unwrap_or(0) } else { 0 };
            most = most.max(v);
            e.c.obligations += 1;
            if stable && (v as i128) > budget {
                rep.push((func.clone(), span.clone(), format!("{} may use the look-ahead budget {v} times between two tokens, and it is {budget}", gr.kinds[*p as usize])));
            }
        }
        if !stable && nprod > 0 {
            und.insert("the use of the look-ahead budget is not bounded by a constant".into(), 1);
        }
        for (p, (func, span)) in std::mem::take(&mut e.c.stale) {
            rep.push((func, span, format!("{} consumes a token without renewing the look-ahead budget", gr.kinds[p as usize])));
        }
        for (func, span, m) in rep {
            let site = Site { f: 0, sum: 0, func, span, tr: None };
            e.c.rep.add(&["C12"], "budget", &site, m);
        }
    }
    for (f, bl) in &stall {
        let func = &ir.fns[*f];
        if func.krate != "mofmt" {
            continue;
        }
        let site = Site { f: *f, sum: 0, func: func.path.clone(), span: func.span.clone(), tr: None };
        let how = if *bl == usize::MAX { "recursion" } else { "a loop" };
        e.c.rep.add(&["C06"], "no-termination", &site, format!("{how} can repeat without consuming a token or using up the look-ahead budget"));
    }
    for (k, v) in &e.undecided {
        *und.entry(k.clone()).or_insert(0) += v;
    }
    for k in &e.c.und {
        und.insert(k.clone(), 1);
    }
    let fns: BTreeSet<usize> = e.sums.iter().map(|s| s.f).filter(|f| ir.fns[*f].krate == "mofmt").collect();
    serde_json::json!({
        "client": "parse",
        "findings": e.c.rep.json(),
        "undecided": und,
        "stats": {
            "functions": fns.len(), "summaries": e.sums.len(), "summaries_all_inputs": n0, "blocks": e.blocks_seen.len(),
            "steps": e.steps, "productions": nprod, "kinds": covered.len(), "obligations": e.c.obligations,
            "node_states": e.c.closes.len(), "error_sites": e.c.errsites.len(), "tainted": e.tainted, "cut": e.cut.clone(), "look_ahead_used": most, "look_ahead_budget": e.c.budget.map(|b| b as i64),
            "control_points": e.nodes.len(), "call_edges": e.calls.len(),
        },
        "function_names": fns.iter().map(|f| ir.fns[*f].path.clone()).collect::<Vec<_>>(),
    })
}
