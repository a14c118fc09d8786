//! The lexer: on every source text, tokens, comments and errors are those of a reference automaton,
//! with exact slices, numbers and positions. Characters are symbolic sets, split on demand; positions
//! are symbolic (boundary between two characters, offset) and compared after normalisation.
use crate::core::*;
use crate::ir::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

const CHARS: u8 = 30;
const CH: u8 = 31;
const BYTE: u8 = 32;
const LINE: u8 = 33;
const COL: u8 = 34;
const CLEN: u8 = 35;
const TEXT: u8 = 36;
const SRC: u8 = 37;
const NAME: u8 = 38;
const CNT: u8 = 39;
const SINK: u8 = 40;

/// characters: bit c for ASCII, NON for all others
const NON: u32 = 128;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Set {
    a: u128,
    non: bool,
}
impl Set {
    const ALL: Set = Set { a: u128::MAX, non: true };
    fn one(c: u32) -> Set {
        if c < 128 {
            Set { a: 1 << c, non: false }
        } else {
            Set { a: 0, non: true }
        }
    }
    fn and(self, o: Set) -> Set {
        Set { a: self.a & o.a, non: self.non && o.non }
    }
    fn minus(self, o: Set) -> Set {
        Set { a: self.a & !o.a, non: self.non && !o.non }
    }
    fn or(self, o: Set) -> Set {
        Set { a: self.a | o.a, non: self.non || o.non }
    }
    fn empty(self) -> bool {
        self.a == 0 && !self.non
    }
    fn of(f: impl Fn(char) -> bool) -> Set {
        (0..128u8).filter(|c| f(*c as char)).fold(Set { a: 0, non: false }, |s, c| s.or(Set::one(c as u32)))
    }
    fn show(self) -> String {
        let mut v: Vec<String> = (0..128u8).filter(|c| self.a >> c & 1 == 1).take(4).map(|c| format!("{:?}", c as char)).collect();
        if self.non && v.len() < 4 {
            v.push("a non-ASCII character".into());
        }
        v.join(", ")
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum LN {
    /// a place between two characters, with what is known of the character that follows;
    /// bol: it starts a line
    Pos { set: Set, drawn: bool, bol: bool },
    Text { a: Id, b: Id },
}
impl Node for LN {
    fn ids(&self, f: &mut dyn FnMut(Id)) {
        if let LN::Text { a, b } = self {
            f(*a);
            f(*b);
        }
    }
    fn rename(&mut self, m: &dyn Fn(Id) -> Option<Id>) {
        if let LN::Text { a, b } = self {
            *a = m(*a).unwrap_or(0);
            *b = m(*b).unwrap_or(0);
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
enum Q {
    #[default]
    Start,
    Sign(u8),
    Word,
    /// 0: digits, 1: fraction, 2: after e, 3: exponent
    Num(u8),
    Str(bool),
    Qid(bool),
    Line,
    /// after a star
    Block(bool),
    Fin(K2),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum K2 {
    Tok(i32),
    Com(i32),
    Word,
    Err,
}
enum Step {
    Skip,
    Go(Q),
    End,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Ref {
    kind: K2,
    start: Id,
    end: Id,
    word: Option<u8>,
    not: u64,
}
/// offset, line and column of a boundary: in the same class the differences are known
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Trk {
    id: Id,
    c: [u8; 3],
    o: [i32; 3],
}
const FAR: [i32; 3] = [2, 1, 2];
fn dim(t: u8) -> Option<usize> {
    match t {
        BYTE => Some(0),
        LINE => Some(1),
        COL => Some(2),
        _ => None,
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    q: Q,
    part: Option<(Id, Option<u8>, u64)>,
    queue: Vec<Ref>,
    /// the boundaries that matter, in the order of the source; the last one is the latest
    trk: Vec<Trk>,
    /// there is a boundary before the last character drawn
    two: bool,
    /// the reference has not yet seen the last character drawn
    pend: bool,
    /// it is known whether that character ends a line and whether it is ASCII
    linked: bool,
    begun: bool,
    eof: bool,
    emitted: bool,
    progress: bool,
    total: bool,
}
impl Ghost for H {
    fn progress(&self) -> bool {
        self.progress
    }
    fn set_progress(&mut self, p: bool) {
        self.progress = p
    }
    fn total(&self) -> bool {
        self.total
    }
    fn set_total(&mut self, p: bool) {
        self.total = p
    }
    fn roots(&self, f: &mut dyn FnMut(Id)) {
        self.trk.iter().for_each(|t| f(t.id));
        if let Some(p) = &self.part {
            f(p.0)
        }
        for r in &self.queue {
            f(r.start);
            f(r.end);
        }
    }
    fn rename(&mut self, m: &dyn Fn(Id) -> Option<Id>) {
        let r = |i: &mut Id| {
            if *i != 0 {
                *i = m(*i).unwrap_or(0)
            }
        };
        self.trk.iter_mut().for_each(|t| r(&mut t.id));
        if let Some(p) = &mut self.part {
            r(&mut p.0)
        }
        for t in &mut self.queue {
            r(&mut t.start);
            r(&mut t.end);
        }
    }
}
impl H {
    fn cur(&self) -> Id {
        self.trk.last().map_or(0, |t| t.id)
    }
    fn prev(&self) -> Id {
        if self.two && self.trk.len() > 1 {
            self.trk[self.trk.len() - 2].id
        } else {
            0
        }
    }
    fn find(&self, id: Id) -> Option<&Trk> {
        self.trk.iter().find(|t| t.id == id)
    }
    /// class and offset of a position
    fn abs(&self, g: &G) -> Option<(u8, i32)> {
        let d = dim(g.t)?;
        self.find(g.id).map(|t| (t.c[d], t.o[d] + g.x))
    }
    /// the canonical form of a position, by the boundaries in `alive`
    fn canon(&self, g: &G, alive: &[bool]) -> Option<Val> {
        let d = dim(g.t)?;
        if g.id == 0 {
            return None;
        }
        let gone = G { id: 0, x: 0, ..*g };
        let Some((c, a)) = self.abs(g) else { return Some(if d == 1 { Val::Top } else { Val::G(gone) }) };
        let live = || self.trk.iter().zip(alive).filter(|x| *x.1).map(|x| x.0).filter(|t| t.c[d] == c);
        let r = if let Some(t) = live().find(|t| t.o[d] == a) {
            G { id: t.id, x: 0, ..*g }
        } else {
            let cur = self.trk.last().unwrap();
            let base = if cur.c[d] == c { Some(cur) } else { live().min_by_key(|t| (a - t.o[d]).abs()) };
            match base {
                Some(t) if (a - t.o[d]).abs() <= 2 => G { id: t.id, x: a - t.o[d], ..*g },
                _ => gone,
            }
        };
        (r != *g).then_some(Val::G(r))
    }
}
/// forget the boundaries that no longer matter
fn refresh(st: &mut S) {
    let mut need: HashSet<Id> = HashSet::new();
    for r in &st.g.queue {
        need.insert(r.start);
        need.insert(r.end);
    }
    if let Some(p) = &st.g.part {
        need.insert(p.0);
    }
    need.insert(st.g.cur());
    need.insert(st.g.prev());
    for o in st.mem.values() {
        if let Obj::C(LN::Text { a, b }) = o {
            need.insert(*a);
            need.insert(*b);
        }
    }
    let alive: Vec<bool> = st.g.trk.iter().map(|t| need.contains(&t.id)).collect();
    let h = st.g.clone();
    map_mem(st, &|g| h.canon(g, &alive));
    let mut i = 0;
    st.g.trk.retain(|_| {
        i += 1;
        alive[i - 1]
    });
    for d in 0..3 {
        let mut seen: Vec<(u8, i32)> = vec![];
        for t in &mut st.g.trk {
            let k = match seen.iter().position(|s| s.0 == t.c[d]) {
                Some(k) => k,
                None => {
                    seen.push((t.c[d], t.o[d]));
                    seen.len() - 1
                }
            };
            t.o[d] -= seen[k].1;
            t.c[d] = k as u8;
        }
    }
}
/// add the boundary after the next character
fn advance(h: &mut H, id: Id) {
    let m = h.trk.iter().flat_map(|t| t.c).max().unwrap() + 1;
    h.trk.push(Trk { id, c: [m; 3], o: [0; 3] });
    h.two = true;
    h.pend = true;
    h.linked = false;
}
/// how the latest boundary relates to the one before it
fn connect(h: &mut H, nl: bool, ascii: bool) {
    let n = h.trk.len();
    let p = h.trk[n - 2];
    let l = &mut h.trk[n - 1];
    if ascii {
        l.c[0] = p.c[0];
        l.o[0] = p.o[0] + 1;
    }
    l.c[1] = p.c[1];
    l.o[1] = p.o[1] + nl as i32;
    if !nl {
        l.c[2] = p.c[2];
        l.o[2] = p.o[2] + 1;
    }
    h.linked = true;
}
/// no differences between far boundaries
fn part_far(h: &mut H) {
    for d in 0..3 {
        let l = *h.trk.last().unwrap();
        if h.trk.iter().any(|t| t.c[d] == l.c[d] && l.o[d] - t.o[d] > FAR[d]) {
            let f = h.trk.iter().map(|t| t.c[d]).max().unwrap() + 1;
            for t in h.trk.iter_mut().filter(|t| t.c[d] == l.c[d] && l.o[d] - t.o[d] <= 1) {
                t.c[d] = f;
            }
        }
    }
}
type S = State<Lex>;
pub struct Lex {
    pub rep: Report,
    pub obligations: u64,
    pub emits: BTreeSet<String>,
    pub seen: BTreeSet<String>,
    words: Vec<(String, i32)>,
    /// texts that are signs or beginnings of signs, with their kind
    signs: Vec<(String, Option<i32>)>,
    names: Vec<String>,
    k: [i32; 6], // Identifier String UInt UReal LineComment BlockComment
    tokty: usize,
    posty: usize,
    fi: [usize; 5], // idx text kind start end
    pi: [usize; 3], // pos line col
    allowed: Set,
}
fn lgg(t: u8, id: Id) -> G {
    G { t, id, x: 0, y: 0 }
}
fn lg(t: u8, id: Id, x: i32) -> Val {
    g(t, id, x, 0)
}
fn map_val(v: &Val, f: &dyn Fn(&G) -> Option<Val>) -> Option<Val> {
    match v {
        Val::G(g) => f(g),
        Val::Agg(_, x) | Val::List(x) | Val::ListIter(x) => {
            let c: Vec<Option<Val>> = x.iter().map(|v| map_val(v, f)).collect();
            if c.iter().all(|x| x.is_none()) {
                return None;
            }
            let n = Rc::new(c.into_iter().zip(x.iter()).map(|(a, b)| a.unwrap_or_else(|| b.clone())).collect());
            Some(match v {
                Val::Agg(k, _) => Val::Agg(*k, n),
                Val::List(_) => Val::List(n),
                _ => Val::ListIter(n),
            })
        }
        _ => None,
    }
}
fn val_ch(v: &Val, out: &mut HashSet<Id>) {
    match v {
        Val::G(g) if matches!(g.t, CH | CLEN) => {
            out.insert(g.id);
        }
        Val::Agg(_, x) | Val::List(x) | Val::ListIter(x) => x.iter().for_each(|v| val_ch(v, out)),
        _ => (),
    }
}
fn map_mem(st: &mut S, f: &dyn Fn(&G) -> Option<Val>) {
    for o in st.mem.values_mut() {
        if let Obj::V(v) = o {
            if let Some(n) = map_val(v, f) {
                *v = n
            }
        }
    }
}

impl Lex {
    fn bad(&mut self, st: &S, p: &[&str], rule: &str, site: &Site, m: String) {
        if !st.taint {
            self.rep.add(p, rule, site, m);
        }
    }
    fn kind(&self, k: K2) -> String {
        match k {
            K2::Tok(i) | K2::Com(i) => self.names.get(i as usize).cloned().unwrap_or_default(),
            K2::Word => "word".into(),
            K2::Err => "error".into(),
        }
    }
    fn sign(&self, s: &str) -> Option<Q> {
        let i = self.signs.iter().position(|x| x.0 == s)?;
        let longer = self.signs.iter().any(|x| x.0.len() > s.len() && x.0.starts_with(s)) || s == "/";
        Some(match self.signs[i].1 {
            Some(k) if !longer => Q::Fin(K2::Tok(k)),
            _ => Q::Sign(i as u8),
        })
    }
    fn step(&self, q: Q, c: u32) -> Step {
        let ch = if c < 128 { c as u8 as char } else { '\u{e9}' };
        let word = ch.is_ascii_alphanumeric() || ch == '_';
        use Step::*;
        match q {
            Q::Start | Q::Fin(_) => {
                if ch.is_ascii_whitespace() {
                    Skip
                } else if let Some(q) = self.sign(&ch.to_string()) {
                    Go(q)
                } else if ch.is_ascii_digit() {
                    Go(Q::Num(0))
                } else if word {
                    Go(Q::Word)
                } else if ch == '"' {
                    Go(Q::Str(false))
                } else if ch == '\'' {
                    Go(Q::Qid(false))
                } else {
                    Go(Q::Fin(K2::Err))
                }
            }
            Q::Sign(i) => {
                let s = &self.signs[i as usize].0;
                match (s.as_str(), ch) {
                    ("/", '/') => Go(Q::Line),
                    ("/", '*') => Go(Q::Block(false)),
                    _ => match self.sign(&format!("{s}{ch}")) {
                        Some(q) => Go(q),
                        None => End,
                    },
                }
            }
            Q::Word if word => Go(Q::Word),
            Q::Word => End,
            Q::Num(n) => match (n, ch) {
                (0 | 1, '0'..='9') => Go(q),
                (0, '.') => Go(Q::Num(1)),
                (0 | 1, 'e' | 'E') => Go(Q::Num(2)),
                (2, '+' | '-') => Go(Q::Num(3)),
                (2 | 3, '0'..='9') => Go(Q::Num(3)),
                _ => End,
            },
            Q::Str(true) => Go(Q::Str(false)),
            Q::Str(false) => match ch {
                '\\' => Go(Q::Str(true)),
                '"' => Go(Q::Fin(K2::Tok(self.k[1]))),
                _ => Go(q),
            },
            Q::Qid(true) => Go(Q::Qid(false)),
            Q::Qid(false) => match ch {
                '\\' => Go(Q::Qid(true)),
                '\'' => Go(Q::Fin(K2::Tok(self.k[0]))),
                _ if word || (c < 128 && self.allowed.a >> c & 1 == 1) => Go(q),
                _ => Go(Q::Fin(K2::Err)),
            },
            Q::Line => match ch {
                '\r' | '\n' => End,
                _ => Go(q),
            },
            Q::Block(star) => match ch {
                '/' if star => Go(Q::Fin(K2::Com(self.k[5]))),
                '*' => Go(Q::Block(true)),
                _ => Go(Q::Block(false)),
            },
        }
    }
    /// kind of the token that ends here
    fn accept(&self, q: Q) -> K2 {
        match q {
            Q::Sign(i) => self.signs[i as usize].1.map(K2::Tok).unwrap_or(K2::Err),
            Q::Word => K2::Word,
            Q::Num(0) => K2::Tok(self.k[2]),
            Q::Num(_) => K2::Tok(self.k[3]),
            Q::Line => K2::Com(self.k[4]),
            Q::Fin(k) => k,
            _ => K2::Err,
        }
    }
    fn finish(&self, s: &mut S, kind: K2, end: Id) {
        if let Some((start, word, not)) = s.g.part.take() {
            s.g.queue.push(Ref { kind, start, end, word, not });
        }
        s.g.q = Q::Start;
    }
    fn pos(&self, st: &mut S, bol: bool) -> Id {
        st.alloc(Obj::C(LN::Pos { set: Set::ALL, drawn: false, bol }))
    }
    /// the latest character: does it end a line, is it ASCII
    fn link(&self, st: S) -> Vec<S> {
        if !st.g.pend || st.g.linked {
            return vec![st];
        }
        let prev = st.g.prev();
        let nl = Set::one(10);
        let mut out = vec![];
        for (m, nl, ascii) in [(nl, true, true), (Set { a: u128::MAX, non: false }.minus(nl), false, true), (Set { a: 0, non: true }, false, false)] {
            if let (Some(mut s), _) = self.split(&st, prev, m) {
                connect(&mut s.g, nl, ascii);
                let cur = s.g.cur();
                if let Some(Obj::C(LN::Pos { bol, .. })) = s.mem.get_mut(&cur) {
                    *bol = nl;
                }
                refresh(&mut s);
                out.push(s);
            }
        }
        out
    }
    /// let the reference see the latest character; unless `full`, only if it belongs to the current token
    fn resolve(&mut self, st: &S, full: bool) -> Vec<S> {
        if !st.g.pend {
            return vec![st.clone()];
        }
        let prev = st.g.prev();
        let Some(LN::Pos { set, .. }) = st.node_opt(prev).cloned() else { return vec![st.clone()] };
        let q = st.g.q;
        let mut groups: Vec<((u8, Q), Set)> = vec![];
        for c in (0..=NON).filter(|c| if *c == NON { set.non } else { set.a >> c & 1 == 1 }) {
            let key = match self.step(q, c) {
                Step::Skip => (0, Q::Start),
                Step::Go(q2) => (1, q2),
                Step::End if !full => (2, Q::Start),
                Step::End => match self.step(Q::Start, c) {
                    Step::Skip => (2, Q::Start),
                    Step::Go(q2) => (3, q2),
                    Step::End => unreachable!(),
                },
            };
            match groups.iter_mut().find(|g| g.0 == key) {
                Some(g) => g.1 = g.1.or(Set::one(c)),
                None => groups.push((key, Set::one(c))),
            }
        }
        let mut out = vec![];
        for ((how, q2), set) in groups {
            let (Some(mut s), _) = self.split(st, prev, set) else { continue };
            if how >= 2 {
                let k = self.accept(q);
                self.finish(&mut s, k, prev);
                if !full {
                    out.push(s);
                    continue;
                }
            }
            let new = s.g.cur();
            if how & 1 == 1 {
                if s.g.part.is_none() {
                    s.g.part = Some((prev, None, 0));
                } else if let Some(p) = &mut s.g.part {
                    // a longer word is another word
                    p.1 = None;
                    p.2 = 0;
                }
                s.g.q = q2;
                if let Q::Fin(k) = q2 {
                    self.finish(&mut s, k, new);
                }
            }
            self.seen.insert(format!("{:?} {:?}", q, q2));
            for mut s in self.link(s) {
                s.g.pend = false;
                refresh(&mut s);
                part_far(&mut s.g);
                out.push(s);
            }
        }
        out
    }
    /// the reference knows the token that ends here, if one does
    fn settle(&mut self, st: &S) -> Vec<S> {
        if st.g.queue.is_empty() {
            self.resolve(st, false)
        } else {
            vec![st.clone()]
        }
    }
    fn settle_for(&mut self, st: &S, v: &Val) -> Vec<S> {
        let mut out = vec![];
        for s in self.settle(st) {
            let far = std::cell::Cell::new(false);
            let (p, c) = (s.g.prev(), s.g.cur());
            map_val(&s.load_all(v), &|g| {
                if dim(g.t).is_some() && (g.id == c || g.id == p && g.x != 0) {
                    far.set(true);
                }
                None
            });
            if far.get() {
                out.extend(self.link(s));
            } else {
                out.push(s);
            }
        }
        out
    }
    /// the next character of the source, or its end
    fn draw(&mut self, st: &S, site: &Site) -> Vec<(S, Option<Id>)> {
        let mut out = vec![];
        if st.g.eof {
            return vec![(st.clone(), None)];
        }
        for st in self.resolve(st, true) {
            let cur = st.g.cur();
            let mut e = st.clone();
            e.g.eof = true;
            if e.g.part.is_some() {
                let k = self.accept(e.g.q);
                self.finish(&mut e, k, cur);
            }
            out.push((e, None));
            let mut s = st;
            if s.g.queue.len() > 2 {
                let k = self.kind(s.g.queue[0].kind);
                self.bad(&s, &["C11"], "token-lost", site, format!("characters of the next tokens are read although the {k} before them has not been reported"));
                continue;
            }
            s.g.progress = true;
            s.g.begun = true;
            if let Some(Obj::C(LN::Pos { set, drawn, .. })) = s.mem.get_mut(&cur) {
                *set = Set::ALL;
                *drawn = true;
            }
            let new = self.pos(&mut s, false);
            advance(&mut s.g, new);
            refresh(&mut s);
            out.push((s, Some(cur)));
        }
        out
    }
    /// is this the position `what` of boundary `at`; None: not known
    fn same(&self, st: &S, v: &Val, what: u8, at: Id) -> Option<bool> {
        let bol = |i: Id| matches!(st.node_opt(i), Some(LN::Pos { bol: true, .. }));
        match v {
            Val::Top => None,
            Val::G(G { t: GE, .. }) => None,
            Val::Int(n) if what == COL => Some(bol(at) && *n == 1),
            Val::G(x) => {
                if x.t != what {
                    return Some(false);
                }
                if what == COL && x.x == 0 && bol(x.id) && bol(at) {
                    return Some(true);
                }
                let want = st.g.abs(&lgg(what, at))?;
                if x.id == 0 {
                    return Some(false);
                }
                Some(st.g.abs(x)? == want)
            }
            _ => Some(false),
        }
    }
    /// boundary that a byte offset stands for (0: one that no longer matters)
    fn bound(&self, st: &S, v: &Val) -> Result<Id, bool> {
        let Val::G(g) = v else { return Err(false) };
        if g.t != BYTE {
            return Err(false);
        }
        if g.x == 0 {
            return Ok(g.id);
        }
        let Some((c, a)) = st.g.abs(g) else { return Err(false) };
        if let Some(t) = st.g.trk.iter().find(|t| t.c[0] == c && t.o[0] == a) {
            return Ok(t.id);
        }
        // beyond the last character, or inside one
        let l = st.g.trk.last().unwrap();
        Err(c == l.c[0] && a > l.o[0] || g.id == st.g.prev() && g.x > 0)
    }
    fn emit(&mut self, st: &S, v: &Val, sink: i32, site: &Site) -> Option<S> {
        let Val::Agg(_, tok) = st.load_all(v) else { return None };
        self.emits.insert(format!("{} {}", site.func, site.span));
        self.obligations += 1;
        let get = |i: usize| tok.get(self.fi[i]).cloned().unwrap_or(Val::Top);
        let (idx, text, kind, start, end) = (get(0), get(1), get(2), get(3), get(4));
        let Some(r) = st.g.queue.first().cloned() else {
            if st.g.part.is_some() {
                let k = self.accept(st.g.q);
                let m = match k {
                    K2::Err => "a token is reported before its end".to_string(),
                    k => format!("a token is reported where a {} may go on", self.kind(k)),
                };
                self.bad(st, &["C11"], "not-longest", site, m);
            } else {
                self.bad(st, &["C11"], "no-token", site, "a token is reported where there is none".into());
            }
            return None;
        };
        let want = match r.kind {
            K2::Word => match r.word {
                Some(w) => self.words[w as usize].1,
                None => self.k[0],
            },
            K2::Tok(k) | K2::Com(k) => k,
            K2::Err => {
                self.bad(st, &["C11", "C13"], "error-missed", site, "text that is no token, or is not closed, is taken for a token".into());
                return None;
            }
        };
        match kind {
            Val::Int(k) => {
                if k as i32 != want {
                    let is = self.words.iter().find(|w| w.1 as i128 == k && r.word.is_none() && r.kind == K2::Word);
                    let m = match (is, r.word) {
                        (Some(_), _) => format!("a word that is no keyword is taken for {}", self.kind(K2::Tok(k as i32))),
                        (_, Some(w)) => format!("the keyword {} is taken for {} instead of {}", self.words[w as usize].0, self.kind(K2::Tok(k as i32)), self.kind(K2::Tok(want))),
                        _ => format!("{} is taken for {}", self.kind(K2::Tok(want)), self.kind(K2::Tok(k as i32))),
                    };
                    self.bad(st, &["C11"], "kind", site, m);
                    return None;
                }
                if r.kind == K2::Word && r.word.is_none() {
                    if let Some(i) = (0..self.words.len()).find(|i| r.not >> i & 1 == 0) {
                        let w = self.words[i].0.clone();
                        self.bad(st, &["C11"], "kind", site, format!("the keyword {w} is taken for an identifier"));
                        return None;
                    }
                }
            }
            Val::Top => {
                self.rep.und.insert(format!("kind of the token in {} is not known", site.func));
            }
            _ => self.bad(st, &["C11"], "kind", site, "the kind of the token is not fixed by its text".into()),
        }
        let com = matches!(r.kind, K2::Com(_));
        if sink >= 0 && (sink == 1) != com {
            self.bad(st, &["C11", "C03", "C01"], "wrong-list", site, if com { "a comment is put among the tokens".into() } else { "a token is put among the comments".into() });
        }
        let part = |v: &Val, i: usize| match v {
            Val::Agg(_, f) => f.get(self.pi[i]).cloned().unwrap_or(Val::Top),
            _ => Val::Top,
        };
        let mut wrong: Vec<(&str, &str)> = vec![];
        for (v, at, n, props) in [(&start, r.start, "start", "C14"), (&end, r.end, "end", "C22")] {
            for (i, w, m) in [(0, BYTE, "offset"), (1, LINE, "line"), (2, COL, "column")] {
                if i != 1 && n == "end" && i == 2 {
                    continue;
                }
                self.obligations += 1;
                match self.same(st, &part(v, i), w, at) {
                    Some(false) => wrong.push((if n == "start" { m } else if i == 0 { "end offset" } else { "end line" }, props)),
                    None => {
                        self.rep.und.insert(format!("{n} {m} of a token in {}", site.func));
                    }
                    _ => (),
                }
            }
        }
        let mut dead = !wrong.is_empty();
        for (m, p) in wrong {
            let k = self.kind(r.kind);
            let props: Vec<&str> = if p == "C14" { vec!["C11", "C14"] } else if m == "end line" { vec!["C11", "C22"] } else { vec!["C11"] };
            self.bad(st, &props, "position", site, format!("the {m} of a token is not that of the token in the source ({k})"));
        }
        match text {
            Val::G(G { t: TEXT, id, x, .. }) => {
                if x == 1 && r.kind == K2::Com(self.k[4]) {
                    self.bad(st, &["C11", "C03"], "text", site, "the text of a line comment is changed".into());
                    return None;
                }
                if let Some(LN::Text { a, b }) = st.node_opt(id).cloned() {
                    let ok = self.same(st, &lg(BYTE, a, 0), BYTE, r.start) == Some(true) && self.same(st, &lg(BYTE, b, 0), BYTE, r.end) == Some(true);
                    if !ok {
                        dead = true;
                        let k = self.kind(r.kind);
                        self.bad(st, &["C11", "C01"], "text", site, format!("the text of a token is not exactly its piece of the source ({k})"));
                    }
                }
            }
            Val::Top | Val::Any => {
                self.rep.und.insert(format!("text of the token in {} is not known", site.func));
            }
            _ => self.bad(st, &["C11", "C01"], "text", site, "the text of a token is not its piece of the source".into()),
        }
        match idx {
            Val::G(G { t: CNT, x: 0, .. }) => (),
            Val::Top | Val::G(G { t: GE, .. }) => {
                self.rep.und.insert(format!("number of the token in {} is not known", site.func));
            }
            Val::Int(0) if !st.g.emitted => (),
            Val::Int(_) => {
                self.rep.und.insert(format!("number of the token in {} is not known", site.func));
            }
            _ => self.bad(st, &["C11", "C03"], "number", site, "tokens and comments are not numbered one by one in the order of the source".into()),
        }
        if dead && !st.taint {
            return None;
        }
        let mut s = st.clone();
        s.g.queue.remove(0);
        s.g.emitted = true;
        refresh(&mut s);
        map_mem(&mut s, &|g| (g.t == CNT).then(|| Val::G(G { x: (g.x - 1).max(-3), ..*g })));
        Some(s)
    }
    fn error(&mut self, st: &S, v: &Val, site: &Site) -> Option<S> {
        let v = &st.load_all(v);
        self.emits.insert(format!("{} {}", site.func, site.span));
        self.obligations += 1;
        let Some(r) = st.g.queue.first().cloned() else {
            let m = if st.g.part.is_some() { "an error is reported before the end of the text it is about" } else { "an error is reported where there is no character that is no token" };
            self.bad(st, &["C11", "C12"], "error-false", site, m.into());
            return None;
        };
        if r.kind != K2::Err {
            let k = self.kind(r.kind);
            self.bad(st, &["C11", "C12"], "error-false", site, format!("an error is reported for a proper {k}"));
            return None;
        }
        let ok = match v {
            Val::Agg(crate::stdlib::FMT, f) => {
                let lit = |i: usize, want: &str| matches!(f.get(i), Some(Val::Str(s)) if &**s == want);
                let colon = matches!(f.get(5), Some(Val::Str(s)) if s.starts_with(": "));
                let at = |i: usize, w: u8| f.get(i).and_then(|v| self.same(st, v, w, r.start));
                if f.len() < 5 && f.iter().any(|v| matches!(v, Val::Any | Val::Top)) {
                    None
                } else if !(matches!(f[0], Val::G(G { t: NAME, .. })) && lit(1, ":") && lit(3, ":") && colon) {
                    Some(false)
                } else {
                    match (at(2, LINE), at(4, COL)) {
                        (Some(a), Some(b)) => Some(a && b),
                        _ => None,
                    }
                }
            }
            Val::Str(_) => Some(false),
            _ => None,
        };
        match ok {
            Some(true) => (),
            Some(false) => self.bad(st, &["C14"], "error-position", site, "a lexical error is not reported as name:line:column of the first character of the text it is about".into()),
            None => {
                self.rep.und.insert(format!("message of a lexical error in {}", site.func));
            }
        }
        let mut s = st.clone();
        s.g.queue.remove(0);
        Some(s)
    }
    fn split(&self, st: &S, id: Id, y: Set) -> (Option<S>, Option<S>) {
        let Some(LN::Pos { set, .. }) = st.node_opt(id).cloned() else { return (None, None) };
        let f = |m: Set| {
            let mut s = st.clone();
            if let Some(Obj::C(LN::Pos { set, .. })) = s.mem.get_mut(&id) {
                *set = m;
            }
            (!m.empty()).then_some(s)
        };
        (f(set.and(y)), f(set.minus(y)))
    }
    fn outs(&self, st: &S, id: Id, y: Set) -> Outs<Self> {
        let (a, n) = self.split(st, id, y);
        a.map(|s| (s, b(true))).into_iter().chain(n.map(|s| (s, b(false)))).collect()
    }
    /// is the text of the current word this one
    fn word(&mut self, st: &S, id: Id, w: &str, site: &Site) -> Outs<Self> {
        let mut out = vec![];
        for s in self.settle(st) {
            out.extend(self.word1(&s, id, w, site));
        }
        out
    }
    fn word1(&mut self, st: &S, id: Id, w: &str, site: &Site) -> Outs<Self> {
        let Some(LN::Text { a, b: z }) = st.node_opt(id).cloned() else { return vec![(st.clone(), Val::Top)] };
        let eq = |x: Id, y: Id| self.same(st, &lg(BYTE, x, 0), BYTE, y) == Some(true);
        let r = st.g.queue.first().cloned();
        let (whole, kind, word, not) = match &r {
            Some(r) => (eq(a, r.start) && eq(z, r.end), r.kind, r.word, r.not),
            None => match &st.g.part {
                Some(p) => (eq(a, p.0) && eq(z, st.g.cur()), self.accept(st.g.q), p.1, p.2),
                None => (false, K2::Err, None, 0),
            },
        };
        // the code takes the current token to be another piece of the text; it is reported as such
        let other = match &r {
            Some(r) => eq(a, r.start),
            None => st.g.part.as_ref().is_some_and(|p| eq(a, p.0)),
        } && (z == st.g.cur() || z == st.g.prev());
        if !whole && other {
            return vec![(st.clone(), Val::Any)];
        }
        if !whole {
            self.rep.und.insert(format!("{} compares a text that is not the current token", site.func));
            return vec![(st.clone(), Val::Top)];
        }
        if kind != K2::Word {
            // signs: the text is known from the kind
            if let K2::Tok(k) = kind {
                if let Some((s, _)) = self.signs.iter().find(|s| s.1 == Some(k)) {
                    return vec![(st.clone(), b(s == w))];
                }
            }
            return vec![(st.clone(), Val::Any)];
        }
        let Some(i) = self.words.iter().position(|x| x.0 == w) else {
            let can = !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
            if word.is_some() || !can {
                return vec![(st.clone(), b(false))];
            }
            return vec![(st.clone(), Val::Any)];
        };
        let put = |word: Option<u8>, not: u64| {
            let mut s = st.clone();
            if let Some(r) = s.g.queue.first_mut() {
                r.word = word;
                r.not = not;
            } else if let Some(p) = &mut s.g.part {
                p.1 = word;
                p.2 = not;
            }
            s
        };
        match word {
            Some(x) => vec![(st.clone(), b(x as usize == i))],
            None if not >> i & 1 == 1 => vec![(st.clone(), b(false))],
            None => vec![(put(Some(i as u8), 0), b(true)), (put(None, not | 1 << i), b(false))],
        }
    }
    /// the last character drawn ends a line
    fn at_bol(&self, st: &S) -> bool {
        st.g.pend && matches!(st.node_opt(st.g.prev()), Some(LN::Pos { set, .. }) if *set == Set::one(10)) || matches!(st.node_opt(st.g.cur()), Some(LN::Pos { bol: true, .. }))
    }
    fn sink(&self, v: &Val) -> Option<i32> {
        match v {
            Val::List(l) if l.is_empty() => Some(-1),
            Val::G(G { t: SINK, x, .. }) => Some(*x),
            _ => None,
        }
    }
}

impl Client for Lex {
    type N = LN;
    type H = H;
    fn agg(&mut self, ir: &Ir, ty: usize, var: u32, vals: &[Val], st: &S) -> Option<Val> {
        let t = &ir.types[ty];
        if !t.local || t.is_enum || t.k != "adt" {
            return None;
        }
        let mut v = vals.to_vec();
        let mut any = false;
        if ty == self.posty && !st.g.begun {
            for (i, w, n) in [(0, BYTE, 0), (1, LINE, 1), (2, COL, 1)] {
                if v.get(self.pi[i]) == Some(&Val::Int(n)) {
                    v[self.pi[i]] = lg(w, st.g.cur(), 0);
                    any = true;
                }
            }
        } else if ty == self.posty && v.get(self.pi[2]) == Some(&Val::Int(1)) && self.at_bol(st) {
            v[self.pi[2]] = lg(COL, st.g.cur(), 0);
            any = true;
        } else if ty != self.posty && ty != self.tokty && !st.g.begun && !st.g.emitted {
            for (i, f) in t.v[var as usize].f.iter().enumerate() {
                if ir.types[f.1].s == "usize" && v.get(i) == Some(&Val::Int(0)) {
                    v[i] = lg(CNT, 0, 0);
                    any = true;
                }
            }
        }
        any.then(|| agg(var, v))
    }
    fn store(&mut self, ir: &Ir, ty: usize, field: u32, v: &Val, st: &S) -> Option<Val> {
        // the column is set to 1 at the start of a line
        if ty == self.posty && field as usize == self.pi[2] && *v == Val::Int(1) {
            if self.at_bol(st) {
                return Some(lg(COL, st.g.cur(), 0));
            }
        }
        let _ = ir;
        None
    }
    fn builtin(&mut self, ir: &Ir, c: &Callee, a: &[Val], st: &S, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let v0 = a.first().map(|v| st.load_all(v)).unwrap_or(Val::Un);
        let (gt, id) = if let Val::G(x) = &v0 { (x.t, x.id) } else { (0, 0) };
        let one = |s: S, v: Val| B::Outs(vec![(s, v)]);
        match last {
            "char_indices" | "chars" if gt == SRC => {
                if st.g.begun {
                    return B::Unknown(format!("{} reads the source again", site.func));
                }
                return one(st.clone(), lg(CHARS, 0, (last == "chars") as i32));
            }
            "next" if gt == CHARS => {
                let pair = matches!(v0, Val::G(G { x: 0, .. }));
                let o = self.draw(st, site);
                return B::Outs(
                    o.into_iter()
                        .map(|(s, r)| {
                            let v = match r {
                                None => none(),
                                Some(i) if pair => some(agg(0, vec![lg(BYTE, i, 0), lg(CH, i, 0)])),
                                Some(i) => some(lg(CH, i, 0)),
                            };
                            (s, v)
                        })
                        .collect(),
                );
            }
            "into_iter" | "by_ref" if gt == CHARS => return one(st.clone(), a[0].clone()),
            "clone" if gt == CHARS => return B::Unknown(format!("{} looks ahead further than one character", site.func)),
            "len_utf8" if gt == CH => {
                return match st.node_opt(id) {
                    Some(LN::Pos { set, .. }) if !set.non => one(st.clone(), Val::Int(1)),
                    _ => one(st.clone(), lg(CLEN, id, 0)),
                }
            }
            "clone" | "to_owned" | "into" | "from" | "deref" | "as_ref" | "borrow" | "as_str" | "to_string" | "into_string" if matches!(gt, TEXT | SRC | NAME | CH | BYTE | LINE | COL) && !(gt == CH && last.starts_with("to_s")) => return one(st.clone(), v0),
            "trim" | "trim_end" | "trim_ascii" | "trim_ascii_end" | "trim_end_matches" | "trim_right" if gt == TEXT => return one(st.clone(), lg(TEXT, id, 1)),
            "trim_start" | "trim_ascii_start" | "trim_left" if gt == TEXT => return one(st.clone(), v0),
            "index" | "get" | "get_unchecked" if gt == SRC => {
                let rt = c.dargs.iter().map(|t| ir.types[*t].s.as_str()).find(|s| s.contains("ops::Range")).unwrap_or("").to_string();
                if let Some(Val::Agg(_, f)) = a.get(1).map(|v| st.load_all(v)) {
                    self.obligations += 1;
                    let (x, y) = if rt.contains("RangeFrom") || rt.contains("RangeTo") || rt.contains("RangeIncl") || f.len() != 2 {
                        return B::Unknown(format!("{} slices the source by {rt}", site.func));
                    } else {
                        (self.bound(st, &f[0]), self.bound(st, &f[1]))
                    };
                    match (x, y) {
                        (Ok(p), Ok(q)) => {
                            let mut s = st.clone();
                            let t = s.alloc(Obj::C(LN::Text { a: p, b: q }));
                            let v = lg(TEXT, t, 0);
                            return one(s, if last == "get" { some(v) } else { v });
                        }
                        (Err(true), _) | (_, Err(true)) => {
                            self.bad(st, &["C06"], "slice", site, "the source may be cut inside a character or beyond its end".into());
                            return B::Outs(vec![]);
                        }
                        _ => return B::Unknown(format!("{} slices the source at a position that is not known", site.func)),
                    }
                }
            }
            "push" if d.contains("Vec") => {
                let Some(p) = st.last_ptr(&a[0]) else { return B::No };
                let cur = st.read_ptr(&p);
                let el = c.dargs.first().cloned().unwrap_or(usize::MAX);
                if el == self.tokty {
                    let Some(sink) = self.sink(&cur) else { return B::No };
                    if let Val::Agg(_, f) = st.load_all(&a[1]) {
                        let _ = f;
                        let mut out = vec![];
                        for s in self.settle_for(st, &a[1]) {
                            let com = s.g.queue.first().is_some_and(|r| matches!(r.kind, K2::Com(_)));
                            for mut s in self.emit(&s, &a[1], sink, site) {
                                s.write_ptr(&p, lg(SINK, 0, if sink < 0 { com as i32 } else { sink }));
                                out.push((s, unit()));
                            }
                        }
                        return B::Outs(out);
                    }
                    return B::Unknown(format!("token that is pushed in {}", site.func));
                }
                if el < ir.types.len() && ir.types[el].s == "std::string::String" {
                    let v = st.load_all(&a[1]);
                    if self.sink(&cur).is_some() {
                        let mut out = vec![];
                        for s in self.settle_for(st, &v) {
                            for mut s in self.error(&s, &a[1], site) {
                                s.write_ptr(&p, lg(SINK, 0, 2));
                                out.push((s, unit()));
                            }
                        }
                        return B::Outs(out);
                    }
                }
            }
            "contains" if d.contains("str") || d.contains("slice") => {
                if let (Val::Str(s), Some(Val::G(G { t: CH, id, .. }))) = (&v0, a.get(1).map(|v| st.load_all(v))) {
                    let set = s.chars().fold(Set { a: 0, non: false }, |x, c| x.or(Set::one(c as u32)));
                    return B::Outs(self.outs(st, id, set));
                }
                if let (Val::List(l), Some(Val::G(G { t: CH, id, .. }))) = (&v0, a.get(1).map(|v| st.load_all(v))) {
                    let set = l.iter().fold(Set { a: 0, non: false }, |x, c| if let Val::Int(c) = c { x.or(Set::one(*c as u32)) } else { x });
                    return B::Outs(self.outs(st, id, set));
                }
            }
            _ if gt == CH => {
                let f: Option<Box<dyn Fn(char) -> bool>> = match last {
                    "is_ascii_whitespace" => Some(Box::new(|c| c.is_ascii_whitespace())),
                    "is_ascii_digit" => Some(Box::new(|c| c.is_ascii_digit())),
                    "is_ascii_alphabetic" => Some(Box::new(|c| c.is_ascii_alphabetic())),
                    "is_ascii_alphanumeric" => Some(Box::new(|c| c.is_ascii_alphanumeric())),
                    "is_ascii_punctuation" => Some(Box::new(|c| c.is_ascii_punctuation())),
                    "is_ascii_lowercase" => Some(Box::new(|c| c.is_ascii_lowercase())),
                    "is_ascii_uppercase" => Some(Box::new(|c| c.is_ascii_uppercase())),
                    "is_ascii_control" => Some(Box::new(|c| c.is_ascii_control())),
                    "is_ascii_graphic" => Some(Box::new(|c| c.is_ascii_graphic())),
                    "is_ascii_hexdigit" => Some(Box::new(|c| c.is_ascii_hexdigit())),
                    "is_ascii" => Some(Box::new(|_| true)),
                    "is_whitespace" => Some(Box::new(|c| c.is_whitespace())),
                    "is_alphabetic" => Some(Box::new(|c| c.is_alphabetic())),
                    "is_alphanumeric" => Some(Box::new(|c| c.is_alphanumeric())),
                    "is_numeric" => Some(Box::new(|c| c.is_numeric())),
                    "is_control" => Some(Box::new(|c| c.is_control())),
                    "is_lowercase" => Some(Box::new(|c| c.is_lowercase())),
                    "is_uppercase" => Some(Box::new(|c| c.is_uppercase())),
                    "is_digit" => match a.get(1) {
                        Some(Val::Int(r)) => {
                            let r = *r as u32;
                            Some(Box::new(move |c| c.is_digit(r)))
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(f) = f {
                    let y = Set::of(f);
                    let ascii_only = last.contains("ascii") || last == "is_digit";
                    let mut o = self.outs(st, id, y);
                    if !ascii_only && matches!(st.node_opt(id), Some(LN::Pos { set, .. }) if set.non) {
                        // some characters outside ASCII are, some are not
                        let (n, _) = self.split(st, id, Set { a: 0, non: true });
                        if let Some(s) = n {
                            o.push((s, b(true)));
                        }
                    }
                    return B::Outs(o);
                }
            }
            _ => (),
        }
        B::No
    }
    fn bin(&mut self, _ir: &Ir, op: &str, x: &Val, y: &Val, st: S, ovf: bool, site: &Site) -> Outs<Self> {
        let wrap = |o: Outs<Self>| -> Outs<Self> {
            if ovf {
                o.into_iter().map(|(s, v)| (s, agg(0, vec![v, Val::Int(0)]))).collect()
            } else {
                o
            }
        };
        let neg = |o: Outs<Self>| -> Outs<Self> {
            o.into_iter().map(|(s, v)| (s, if let (Val::Int(i), "Ne") = (&v, op) { b(*i == 0) } else { v })).collect()
        };
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        if base == "Add" || base == "Sub" {
            let sg = if base == "Sub" { -1 } else { 1 };
            let r = match (x, y) {
                (Val::G(g), Val::Int(k)) if matches!(g.t, BYTE | LINE | COL | CNT) => Some(G { x: g.x + sg * *k as i32, ..*g }),
                (Val::Int(k), Val::G(g)) if matches!(g.t, BYTE | LINE | COL | CNT) && sg == 1 => Some(G { x: g.x + *k as i32, ..*g }),
                (Val::G(p), Val::G(l)) | (Val::G(l), Val::G(p)) if p.t == BYTE && l.t == CLEN && sg == 1 => (p.x == 0 && p.id == l.id && l.id == st.g.prev()).then(|| lgg(BYTE, st.g.cur())),
                _ => None,
            };
            if let (Val::G(p), Val::G(l)) | (Val::G(l), Val::G(p)) = (x, y) {
                // bytes are not columns
                if p.t == COL && l.t == CLEN && sg == 1 && l.id == st.g.prev() {
                    let mut out = vec![];
                    for s in self.link(st) {
                        let one = matches!(s.node_opt(l.id), Some(LN::Pos { set, .. }) if !set.non);
                        let r = if one { G { x: p.x + 1, ..*p } } else { lgg(COL, 0) };
                        let v = s.g.canon(&r, &vec![true; s.g.trk.len()]).unwrap_or(Val::G(r));
                        out.push((s, v));
                    }
                    return wrap(out);
                }
            }
            if let Some(r) = r {
                if r.x.abs() > 20 {
                    return wrap(vec![(st, Val::Top)]);
                }
                if dim(r.t).is_some() && r.id == 0 {
                    return wrap(vec![(st, Val::Top)]);
                }
                let put = |s: S| {
                    let v = s.g.canon(&r, &vec![true; s.g.trk.len()]).unwrap_or(Val::G(r));
                    (s, v)
                };
                if r.t == BYTE && r.id == st.g.prev() && r.x > 0 {
                    return wrap(self.link(st).into_iter().map(put).collect());
                }
                return wrap(vec![put(st)]);
            }
            return wrap(vec![(st, Val::Top)]);
        }
        match (x, y) {
            (Val::G(G { t: CH, id, .. }), Val::Int(k)) | (Val::Int(k), Val::G(G { t: CH, id, .. })) if !ovf => {
                let flip = matches!(x, Val::Int(_));
                let k = *k;
                let f = |c: i128| match (op, flip) {
                    ("Eq", _) => c == k,
                    ("Ne", _) => c != k,
                    ("Lt", false) | ("Gt", true) => c < k,
                    ("Le", false) | ("Ge", true) => c <= k,
                    ("Gt", false) | ("Lt", true) => c > k,
                    ("Ge", false) | ("Le", true) => c >= k,
                    _ => false,
                };
                let ascii = Set::of(|c| f(c as i128));
                let set = Set { a: ascii.a, non: f(200) };
                let mixed = k >= 128 && matches!(st.node_opt(*id), Some(LN::Pos { set, .. }) if set.non);
                let mut o = self.outs(&st, *id, set);
                if mixed {
                    let (n, _) = self.split(&st, *id, Set { a: 0, non: true });
                    if let Some(s) = n {
                        o.push((s, b(!f(200))));
                    }
                }
                o
            }
            (Val::G(G { t: CH, id: i, .. }), Val::G(G { t: CH, id: j, .. })) if i == j => vec![(st, b(matches!(op, "Eq" | "Le" | "Ge")))],
            (Val::G(G { t: TEXT, id, .. }), Val::Str(s)) | (Val::Str(s), Val::G(G { t: TEXT, id, .. })) if op == "Eq" || op == "Ne" => neg(self.word(&st, *id, s, site)),
            _ => wrap(vec![(st, Val::Top)]),
        }
    }
    fn switch(&mut self, _ir: &Ir, gv: &G, t: &[i128], st: &S) -> Option<Vec<(S, usize)>> {
        if gv.t != CH {
            return None;
        }
        let Some(LN::Pos { set, .. }) = st.node_opt(gv.id).cloned() else { return None };
        let mut out = vec![];
        let mut rest = set;
        for (i, k) in t.iter().enumerate() {
            let one = Set::one(*k as u32);
            if let (Some(s), _) = self.split(st, gv.id, rest.and(one)) {
                out.push((s, i));
            }
            if *k < 128 {
                rest = rest.minus(one);
            }
        }
        if let (Some(s), _) = self.split(st, gv.id, rest) {
            out.push((s, t.len()));
        }
        Some(out)
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut S, exit: H, shared: &HashSet<Id>, _site: &Site) {
        let _ = shared;
        st.g = exit;
        refresh(st);
    }
    fn gc(&mut self, st: &mut S, _owned: &HashSet<Id>, _reach: &HashSet<Id>, _site: &Site) {
        refresh(st);
        // what is known of characters that nobody looks at any more
        let mut chars: HashSet<Id> = HashSet::new();
        for o in st.mem.values() {
            if let Obj::V(v) = o {
                val_ch(v, &mut chars);
            }
        }
        let (pend, prev) = (st.g.pend, st.g.prev());
        for (i, o) in st.mem.iter_mut() {
            if let Obj::C(LN::Pos { set, .. }) = o {
                if *set != Set::ALL && !chars.contains(i) && !(pend && *i == prev) {
                    *set = Set::ALL;
                }
            }
        }
    }
    fn root_exit(&mut self, _ir: &Ir, st: &S, site: &Site) {
        if st.taint {
            return;
        }
        self.obligations += 1;
        if let Some(r) = st.g.queue.first() {
            let k = self.kind(r.kind);
            let p: &[&str] = if r.kind == K2::Err { &["C11", "C13"] } else { &["C11"] };
            self.bad(st, p, "token-lost", site, if r.kind == K2::Err { "a lexical error is not reported".into() } else { format!("the lexer ends without reporting the last {k}") });
        } else if st.g.part.is_some() || !st.g.eof {
            self.bad(st, &["C11"], "source-left", site, "the lexer ends before the end of the source".into());
        }
        if let Val::Agg(_, f) = st.read_at(0, &[]) {
            for (i, v) in f.iter().enumerate() {
                match self.sink(v) {
                    Some(-1) => (),
                    Some(k) if k == i as i32 => (),
                    Some(_) => self.bad(st, &["C11"], "result", site, "the lists of tokens, comments and errors are mixed up".into()),
                    None => {
                        self.rep.und.insert("result of the lexer".into());
                    }
                }
            }
        }
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &S, site: &Site) {
        self.obligations += 1;
        self.bad(st, &["C06"], "panic", site, format!("the lexer can panic: {what}"));
    }
}

pub fn run(ir: &Ir, spec: &str) -> serde_json::Value {
    let mut rep = Report::default();
    let tk = ir.adt("ModelicaToken");
    let names: Vec<String> = tk.map(|t| ir.types[t].v.iter().map(|v| v.name.clone()).collect()).unwrap_or_default();
    let disc = |n: &str| tk.and_then(|t| ir.types[t].v.iter().find(|v| v.name == n).map(|v| v.d as i32)).unwrap_or(-1);
    let mut words = vec![];
    let mut signs: Vec<(String, Option<i32>)> = vec![];
    for l in spec.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() {
            ["word", k, t] => words.push((t.to_string(), disc(k))),
            ["sign", k, t] => {
                for n in 1..t.len() {
                    if !signs.iter().any(|s| s.0 == t[..n]) {
                        signs.push((t[..n].to_string(), None));
                    }
                }
                match signs.iter_mut().find(|s| s.0 == *t) {
                    Some(s) => s.1 = Some(disc(k)),
                    None => signs.push((t.to_string(), Some(disc(k)))),
                }
            }
            _ => (),
        }
    }
    let (tokty, posty) = (ir.adt("Token").unwrap_or(0), ir.adt("Position").unwrap_or(0));
    let fld = |t: usize, n: &str| ir.field(t, n).unwrap_or(99);
    let allowed = Set::of(|c| "!#$%&()*+,-./:;<>=?@[]^{}|~ \"".contains(c));
    let c = Lex {
        k: ["Identifier", "String", "UInt", "UReal", "LineComment", "BlockComment"].map(disc),
        fi: ["idx", "text", "kind", "start", "end"].map(|n| fld(tokty, n)),
        pi: ["pos", "line", "col"].map(|n| fld(posty, n)),
        obligations: 0,
        emits: BTreeSet::new(),
        seen: BTreeSet::new(),
        rep: std::mem::take(&mut rep),
        words,
        signs,
        names,
        tokty,
        posty,
        allowed,
    };
    let missing: Vec<&str> = ["Identifier", "String", "UInt", "UReal", "LineComment", "BlockComment"].into_iter().filter(|n| disc(n) < 0).collect();
    let mut e = Eng::new(ir, c);
    e.cap = 6;
    // the function that turns a text into tokens, comments and errors
    let root = ir.fns.iter().position(|f| {
        f.krate == "mofmt" && f.args == 2 && {
            let r = &ir.types[f.locals[0]];
            let s: Vec<&str> = r.f.iter().map(|t| ir.types[*t].s.as_str()).collect();
            r.k == "tuple" && s.len() == 3 && s[0] == s[1] && s[0].contains("Token>") && s[2].contains("String>")
        }
    });
    match root {
        Some(r) if missing.is_empty() => {
            let mut st: S = State::new();
            let b0 = st.alloc(Obj::C(LN::Pos { set: Set::ALL, drawn: false, bol: true }));
            st.g.trk = vec![Trk { id: b0, c: [0; 3], o: [0; 3] }];
            st.mem.insert(1, Obj::V(lg(NAME, 0, 0)));
            st.mem.insert(2, Obj::V(lg(SRC, 0, 0)));
            e.run(vec![(r, st)]);
        }
        _ => e.undecide("no function that turns a text into tokens, comments and errors".into()),
    }
    if e.debug {
        e.profile();
        if let Ok(n) = std::env::var("ENGINE_SHOW") {
            e.show_entries(&n, 20);
        }
    }
    let complete = e.undecided.is_empty() && e.cut.is_empty();
    let stall = if complete { e.stalls() } else { vec![] };
    for (f, bl) in &stall {
        let func = &ir.fns[*f];
        if func.krate != "mofmt" {
            continue;
        }
        let site = Site { f: *f, sum: 0, func: func.path.clone(), span: func.span.clone(), tr: None };
        let how = if *bl == usize::MAX { "recursion" } else { "a loop" };
        e.c.rep.add(&["C06"], "no-termination", &site, format!("{how} can repeat without taking a character of the source"));
    }
    let local: BTreeSet<String> = e.sums.iter().map(|s| &ir.fns[s.f]).filter(|f| f.krate == "mofmt").map(|f| f.path.clone()).collect();
    let mut und: BTreeMap<String, usize> = e.undecided.clone();
    for (f, n) in &e.cut {
        und.insert(format!("paths of {f} that depend on an unknown value"), *n);
    }
    for u in &e.c.rep.und {
        und.insert(u.clone(), 1);
    }
    serde_json::json!({
        "client": "lex",
        "findings": e.c.rep.json(),
        "undecided": und,
        "stats": {"functions": local.len(), "summaries": e.sums.len(), "blocks": e.blocks_seen.len(), "call_edges": e.calls.len(), "steps": e.steps,
            "obligations": e.c.obligations, "emit_sites": e.c.emits.len(), "reference_steps": e.c.seen.len(), "keywords": e.c.words.len(), "control_points": e.nodes.len()},
        "function_names": local,
    })
}
