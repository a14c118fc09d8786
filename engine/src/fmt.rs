//! The formatter: every syntax tree the reference grammar allows is walked symbolically, one
//! production at a time; what is printed is compared with the order of the tokens and with the
//! style sheet.
use crate::core::*;
use crate::gram::*;
use crate::ir::*;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const KIDS: u8 = 10;
const KITER: u8 = 11;
const TEXT: u8 = 12;
const TKIND: u8 = 13;
const NKIND: u8 = 14;
const LINE: u8 = 15;
const IDX: u8 = 16;
const LEN: u8 = 17;
const VITER: u8 = 18;
const SINK: u8 = 19;
const SITER: u8 = 20;
/// the comments of the source
const CITER: u8 = 21;
/// the number of markers, and an offset
const MLEN: u8 = 22;
/// text that is not what the source says any more
const ALTERED: u32 = 703;
// which token of a piece is meant: itself, the first, the last, the one at a position
const SELF: i32 = 0;
const FIRST: i32 = 1;
const LAST: i32 = 2;
const AT: i32 = 16;

// what the style demands before a piece
const UNKNOWN: u8 = 0;
const NONE: u8 = 1;
const SPACE: u8 = 2;
const BREAK: u8 = 3;
const BLANK: u8 = 4;
const LEGAL: u8 = 5;
const START: u8 = 6;
const INH: u8 = 7;
// why
const LIST: u8 = 1;
const OPER: u8 = 2;
const COND: u8 = 3;

// markers since the last token
const S_SP: u8 = 1;
const S_BR: u8 = 2;
const S_BL: u8 = 3;
const S_IN: u8 = 4;
const S_DE: u8 = 5;

// entries of the list of pieces that are not pieces
const FOREIGN: Id = 0;
const DEADB: Id = 2;
const GONE: Id = 3;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Nd {
    /// 0 token, 1 tree, 2 wrapping of an expression
    t: u8,
    kinds: u128,
    kind: u8,
    root: bool,
    pos: u8,
    next: u128,
    fmask: u128,
    /// lines from the first to the last token, and between the brackets: sets of {0, 1, more}
    ml: u8,
    pml: u8,
    has_y: u128,
    has_n: u128,
    lens: u16,
    /// the children are being counted
    counted: bool,
    cnt: u8,
    seen_y: u8,
    seen_n: u8,
    // place in the parent and what the style wants
    par: Id,
    ppos: u8,
    cpos: u8,
    ev: bool,
    q: u8,
    cat: u8,
    rl: i8,
    lvl: i8,
    w: bool,
    grp: Id,
    /// lines from the last printed token
    xrel: u8,
    emitted: bool,
    /// known by class only
    wide: bool,
    /// begins on the line on which the piece before it ends
    inl: bool,
}
impl Node for Nd {
    fn ids(&self, f: &mut dyn FnMut(Id)) {
        if self.grp != 0 {
            f(self.grp)
        }
    }
    fn rename(&mut self, m: &dyn Fn(Id) -> Option<Id>) {
        if self.grp != 0 {
            self.grp = m(self.grp).unwrap_or(0);
        }
        if self.par != 0 {
            self.par = m(self.par).unwrap_or(0);
        }
    }
    fn returned(&mut self, old: &Self) {
        if self.par == 0 && !self.ev && !self.emitted {
            self.par = old.par;
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct H {
    /// pieces that are still to be printed, in the order of the source; owned here?
    order: Vec<(Id, bool)>,
    /// owned by the function that is being called
    lent: Vec<Id>,
    last: Id,
    any: bool,
    /// a token was printed
    printed: bool,
    tail: Vec<u8>,
    boff: i8,
    delta: i8,
    low: i8,
    /// lines from the last printed token to the next one
    gapd: u8,
    /// while a search through a tree is judged
    scan: Scan,
    /// comments before the next token
    cm: Gap,
    /// those that are known and were not printed yet
    cms: Vec<Id>,
    /// the first one that was not taken from the list
    chead: Id,
    /// some value depends on the number of markers
    mlen: bool,
}
fn unlen(v: &mut Val) {
    match v {
        Val::G(G { t: MLEN, .. }) => *v = Val::Top,
        Val::Agg(_, f) | Val::List(f) if f.iter().any(|x| matches!(x, Val::G(G { t: MLEN, .. }) | Val::Agg(..) | Val::List(_))) => Rc::make_mut(f).iter_mut().for_each(unlen),
        _ => (),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
struct Gap {
    /// 0 there may be more, 1 the next one is behind the token, 2 there are no more
    know: u8,
    n: u8,
    /// lines from the last token to the end of the last comment
    off: i8,
    /// the last comment lasts to the end of the line
    line: bool,
    /// printed last: 0 a token, 1 a comment, 2 a comment that lasts to the end of the line
    last: u8,
    /// an empty line was printed
    blank: bool,
    /// 1 an empty line that is not in the source was printed, 2 one that is was not,
    /// 4 an empty line was printed before a comment, 8 and 16: like 1 and 2, after that
    odd: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
struct Scan {
    on: bool,
    k: u8,
    /// the child that was seen last may hold the kind, and was not searched
    pend: bool,
    missed: bool,
    found: bool,
    /// which child was seen last
    at: u8,
}
impl Ghost for H {
    fn roots(&self, f: &mut dyn FnMut(Id)) {
        if self.last != 0 {
            f(self.last)
        }
        self.cms.iter().for_each(|i| f(*i));
    }
    fn rename(&mut self, m: &dyn Fn(Id) -> Option<Id>) {
        self.lent.clear();
        for o in self.order.iter_mut() {
            if o.0 > 9 {
                o.0 = m(o.0).unwrap_or(if o.1 { GONE } else { DEADB });
            }
        }
        if self.last != 0 {
            self.last = m(self.last).unwrap_or(0);
        }
        for c in self.cms.iter_mut() {
            *c = m(*c).unwrap_or(0);
        }
        if self.chead != 0 {
            self.chead = m(self.chead).unwrap_or(0);
        }
    }
}
type S<'g> = State<Fmt<'g>>;

pub struct Fmt<'g> {
    gr: &'g Gram,
    rep: Report,
    obligations: usize,
    judged: BTreeSet<(u8, u8, u8)>,
    emits: BTreeSet<String>,
    unjudged: usize,
    root: u8,
    markty: usize,
    tokty: usize,
    posty: usize,
    treety: usize,
    mk: [u32; 6],
    ch: [u32; 2],
    fi: [u32; 5],
    pi: [u32; 3],
    ti: [u32; 2],
    rem: BTreeMap<u8, Vec<u16>>,
    reacht: BTreeMap<u8, Vec<u8>>,
    brackets: Vec<u8>,
    /// tokens that are told apart after they are printed; the others are known by class only
    special: u128,
    classes: Vec<u128>,
    asked: std::cell::Cell<u128>,
    /// functions that tell whether a tree holds a kind
    searchers: BTreeSet<usize>,
    /// how many comments in a row are considered
    row: u8,
    /// is the style judged
    style: bool,
}

fn sset(s: &S, i: Id) -> Option<Nd> {
    s.node_opt(i).cloned()
}
fn front(h: &H) -> Option<Id> {
    h.order.iter().map(|o| o.0).find(|i| *i != GONE)
}
fn names(v: &[String], m: u128) -> String {
    let n: Vec<&str> = (0..v.len()).filter(|i| m >> i & 1 == 1).map(|i| v[i].as_str()).collect();
    if n.len() > 6 { format!("{} or {} others", n[..3].join("/"), n.len() - 3) } else { n.join("/") }
}
struct Rl {
    q: u8,
    cat: u8,
    rl: i8,
    lvl: i8,
    w: bool,
    /// 0 none, 1 that of the parent, 2 a new one
    grp: u8,
    wrap: bool,
}
#[derive(Clone, Copy)]
enum Q {
    Ml(Id),
    Pml(Id),
    Has(Id, u8),
    Len(Id, u16),
    First(Id, u8),
    Rel(Id, Id),
    Last(u8),
    Rest,
}

impl<'g> Fmt<'g> {
    fn bad(&mut self, p: &[&str], rule: &str, site: &Site, m: String) {
        self.rep.add(p, rule, site, m);
    }
    fn k(&self, n: &str) -> u8 {
        *self.gr.kidx.get(n).unwrap_or(&255)
    }
    fn tk(&self, n: &str) -> u8 {
        *self.gr.tidx.get(n).unwrap_or(&255)
    }
    fn bracket(&self, t: u8) -> u8 {
        self.brackets.iter().position(|b| *b == t).map(|i| 1 << i).unwrap_or(0)
    }
    fn symname(&self, k: u8, p: u8) -> &str {
        if p == 0 {
            return "";
        }
        match &self.gr.nfa[&k].pos[p as usize] {
            Some(Pos { sym: Sym::T(t), .. }) => &self.gr.toks[*t as usize],
            Some(Pos { sym: Sym::K(c), .. }) => &self.gr.kinds[*c as usize],
            None => "",
        }
    }
    fn new_node(&self, kind: u8) -> Nd {
        Nd { t: 1, kind, next: !0, fmask: self.gr.first[&kind], ml: 7, pml: 7, lens: self.gr.nfa[&kind].lens, xrel: 7, ..Nd::default() }
    }
    /// what can come next in the tree: (representative position, tokens; none: a subtree), and whether it can end
    fn follow(&self, n: &Nd, pos: u8, seen: u8) -> (Vec<(u8, Option<u128>)>, bool) {
        let a = &self.gr.nfa[&n.kind];
        let lens = n.lens != a.lens;
        let rem = &self.rem[&n.kind];
        let rt = &self.reacht[&n.kind];
        let mut out: BTreeMap<u8, Option<u128>> = BTreeMap::new();
        for q in &a.follow[pos as usize] {
            if pos == 0 && n.next >> q & 1 == 0 {
                continue;
            }
            if lens && pos == n.pos {
                // some number of children must remain possible
                let ok = (0..9u32).any(|t| n.lens >> t & 1 == 1 && {
                    let c = n.cnt as u32 + 1;
                    if t == 8 { rem[*q] & !((1u32 << 8u32.saturating_sub(c)) - 1) as u16 != 0 || c >= 8 } else { t >= c && rem[*q] >> (t - c) & 1 == 1 }
                });
                if !ok {
                    continue;
                }
            }
            match &a.pos[*q] {
                Some(Pos { sym: Sym::T(t), .. }) => {
                    if pos == 0 && n.fmask >> t & 1 == 0 {
                        continue;
                    }
                    let br = self.bracket(*t);
                    if br & n.seen_n != 0 || n.seen_y & !seen & !br & !rt[*q] != 0 {
                        continue;
                    }
                    let r = a.rep[*q] as u8;
                    let e = out.entry(r).or_insert(Some(0));
                    if let Some(m) = e {
                        *m |= 1 << t;
                    }
                }
                Some(Pos { sym: Sym::K(c), excl }) => {
                    if pos == 0 && self.gr.first[c] & !excl & n.fmask == 0 || n.has_n >> c & 1 == 1 || n.seen_y & !seen & !rt[*q] != 0 {
                        continue;
                    }
                    out.insert(*q as u8, None);
                }
                None => (),
            }
        }
        let mut end = a.accept[pos as usize] && (pos != 0 || n.root) && n.seen_y & !seen == 0;
        if lens && pos == n.pos && n.lens >> (n.cnt.min(8)) & 1 == 0 {
            end = false;
        }
        (out.into_iter().collect(), end)
    }
    fn take(&self, st: &S<'g>, id: Id) -> Vec<(S<'g>, Val)> {
        let Some(n) = sset(st, id) else { return vec![] };
        let (next, end) = self.follow(&n, n.pos, 0);
        let mut out = vec![];
        for (q, toks) in next {
            let mut s = st.clone();
            let mut c = match toks {
                Some(m) => Nd { t: 0, kinds: m, xrel: 7, ..Nd::default() },
                None => {
                    let Some(Pos { sym: Sym::K(k), excl }) = &self.gr.nfa[&n.kind].pos[q as usize] else { continue };
                    let mut c = self.new_node(*k);
                    c.fmask &= !excl;
                    if n.pos == 0 {
                        c.fmask &= n.fmask;
                    }
                    c.has_n = n.has_n & (self.gr.inside[k] | 1 << k);
                    if n.ml == 1 || (n.pml == 1 && self.between(n.kind, *k)) {
                        c.ml = 1;
                        c.pml = 1;
                    }
                    c
                }
            };
            c.inl = self.style && if n.pos == 0 { n.inl } else { n.ml == 1 };
            if self.style {
                c.par = id;
                c.ppos = n.pos;
                c.cpos = q;
            }
            let leaf = toks.is_some();
            let cid = s.alloc(Obj::C(c));
            let m = s.node_mut(id);
            m.pos = q;
            m.next = !0;
            m.fmask = !0;
            if m.counted || m.lens != self.gr.nfa[&m.kind].lens {
                m.cnt = (m.cnt + 1).min(8);
            }
            if let Some(t) = toks {
                for t in 0..128 {
                    if toks.unwrap() >> t & 1 == 1 {
                        m.seen_y &= !self.bracket(t);
                    }
                }
                let _ = t;
            }
            let at = s.g.order.iter().position(|o| o.0 == id).unwrap_or(s.g.order.len());
            s.g.order.insert(at, (cid, true));
            let v = if leaf { agg(self.ch[0], vec![self.token(cid, SELF, true)]) } else { agg(self.ch[1], vec![self.tree(cid, SELF, true)]) };
            out.push((s, some(v)));
        }
        if end {
            let mut s = st.clone();
            s.g.order.retain(|o| o.0 != id);
            // of what was printed last, only that matters which the surroundings could ask for
            let l = s.g.last;
            if l != 0 {
                let all = self.gr.last[&n.kind] & !self.special;
                if let Some(Obj::C(m)) = s.mem.get_mut(&l) {
                    if m.kinds & !all == 0 && m.kinds != all {
                        m.kinds = all;
                        m.wide = true;
                    }
                }
            }
            out.push((s, none()));
        }
        out
    }
    fn between(&self, k: u8, c: u8) -> bool {
        let (k, c) = (self.gr.kinds[k as usize].as_str(), self.gr.kinds[c as usize].as_str());
        matches!((k, c), ("ShortClassSpecifier", "EnumList") | ("ImportClause", "ImportList") | ("ExternalFunctionCall", "ExpressionList") | ("FunctionPartialApplication", "NamedArguments"))
    }
    fn token(&self, id: Id, x: i32, own: bool) -> Val {
        let p = |y: i32| {
            let mut f = vec![Val::Any; 3];
            f[self.pi[1] as usize] = g(LINE, id, x, y);
            agg(0, f)
        };
        let mut f = vec![Val::Any; 5];
        f[self.fi[0] as usize] = g(IDX, id, x, 0);
        f[self.fi[1] as usize] = g(TEXT | if own { OWN } else { 0 }, id, x, 0);
        f[self.fi[2] as usize] = g(TKIND, id, x, 0);
        f[self.fi[3] as usize] = p(0);
        f[self.fi[4] as usize] = p(1);
        agg(0, f)
    }
    /// a comment; its place is counted from the end of the last token
    fn comment(&self, st: &S<'g>, id: Id, own: bool) -> Val {
        let n = st.node(id);
        let p = |off: u8| {
            let mut f = vec![Val::Any; 3];
            f[self.pi[1] as usize] = if n.pos == 1 { Val::Any } else { g(LINE, st.g.last, SELF, 1 | (off as i32) << 1) };
            agg(0, f)
        };
        let mut f = vec![Val::Any; 5];
        f[self.fi[0] as usize] = g(IDX, id, SELF, 0);
        f[self.fi[1] as usize] = g(TEXT | if own { OWN } else { 0 }, id, SELF, 0);
        f[self.fi[2] as usize] = g(TKIND, id, SELF, 0);
        f[self.fi[3] as usize] = p(n.ml);
        f[self.fi[4] as usize] = p(n.pml);
        agg(0, f)
    }
    /// the next comment, if any
    fn head(&self, st: &S<'g>) -> Vec<(S<'g>, Option<Id>)> {
        let h = &st.g;
        if h.chead != 0 {
            return vec![(st.clone(), Some(h.chead))];
        }
        let mut out = vec![];
        let mut s = st.clone();
        s.g.cm.know = 2;
        out.push((s, None));
        if h.cm.know == 2 {
            return out;
        }
        let (line, block) = (1u128 << self.tk("LineComment"), 1u128 << self.tk("BlockComment"));
        let f = front(h);
        if f.is_some() {
            let mut s = st.clone();
            s.g.cm.know = 1;
            let id = s.alloc(Obj::C(Nd { t: 3, kinds: line | block, pos: 1, xrel: 7, ..Nd::default() }));
            out.push((s, Some(id)));
        }
        if h.cm.know == 0 && h.cm.n < self.row {
            let all = if f.is_some() { self.slot(st, Slot::Gap) } else { 7 };
            for d in h.cm.line as i8..3i8 {
                for (kind, own) in [(line, 0), (block, 0), (block, 1)] {
                    if !self.style && d + own == 2 {
                        continue;
                    }
                    // what is left to the next token
                    let mut left = 0;
                    for e in (if kind == line { 1 } else { 0 })..3 {
                        if all >> (d + own + e).min(2) & 1 == 1 {
                            left |= 1 << e;
                        }
                    }
                    if left == 0 {
                        continue;
                    }
                    let mut s = st.clone();
                    let from = s.g.cm.off + d;
                    let id = s.alloc(Obj::C(Nd { t: 3, kinds: kind, ml: from as u8, pml: (from + own) as u8, cnt: d as u8, xrel: 7, ..Nd::default() }));
                    s.g.cm.off = from + own;
                    s.g.cm.n += 1;
                    s.g.cm.line = kind == line;
                    s.g.gapd = left;
                    s.g.cms.push(id);
                    s.g.chead = id;
                    out.push((s, Some(id)));
                }
            }
        }
        out
    }
    /// is the comment before that token
    fn before(&self, st: &S<'g>, c: Id, t: &G) -> Val {
        let later = st.node(c).pos == 1;
        let h = &st.g;
        let f = front(h);
        if f.is_none() || t.id == h.last || t.id == 0 {
            return b1(false);
        }
        if f == Some(t.id) && (t.x == SELF || t.x == FIRST) {
            return b1(!later);
        }
        if h.order.iter().any(|o| o.0 == t.id) && !later { b1(true) } else { Val::Top }
    }
    /// a comment is printed
    fn emit_comment(&mut self, st: &S<'g>, id: Id, site: &Site) -> Option<S<'g>> {
        self.obligations += 1;
        let n = st.node(id).clone();
        if st.g.cms.first() != Some(&id) {
            let m = if n.emitted {
                "a comment is printed twice"
            } else if n.pos == 1 {
                "a comment is printed before tokens that precede it in the source"
            } else {
                "comments are printed in another order"
            };
            self.bad(&["C03"], "comment", site, m.into());
            match st.g.cms.iter().position(|c| *c == id) {
                Some(i) => {
                    // what else happens in that order
                    let mut s = st.clone();
                    s.g.cms[..=i].rotate_right(1);
                    return self.emit_comment(&s, id, site);
                }
                None => return None,
            }
        }
        let h = &st.g;
        let gap: Vec<u8> = h.tail.iter().cloned().filter(|m| *m <= S_BL).collect();
        let start = !h.printed && h.cm.last == 0;
        let to = || if h.cm.last != 0 { "between comments".to_string() } else { self.describe(st, 0).replace(", before ", ", before a comment") };
        match gap.as_slice() {
            [] if start => (),
            [] if h.cm.last == 0 && st.node_opt(h.last).is_some_and(|e| e.kinds >> self.tk("Slash") & 1 == 1) => {
                let m = to();
                self.bad(&["C02", "C03"], "merge", site, format!("nothing is printed {m}"));
            }
            [] | [S_SP] if h.cm.last == 2 => {
                self.bad(&["C02", "C03"], "swallowed", site, "a comment follows a comment that lasts to the end of the line".into());
                return None;
            }
            [] | [S_SP] | [S_BR] | [S_BL] if !start => (),
            _ => {
                let m = to();
                self.bad(&["C21"], if start { "leading" } else { "stray-space" }, site, format!("white space is printed {}{m}", if start { "" } else { "more than once " }));
                return None;
            }
        }
        let mut s = st.clone();
        self.stale(&mut s);
        s.g.cms.remove(0);
        if s.g.chead == id {
            s.g.chead = 0;
        }
        let again = h.cm.odd & 4 != 0;
        match gap.last() {
            Some(&S_BL) if n.cnt < 2 => s.g.cm.odd |= if again { 9 } else { 1 },
            Some(&S_BR) if n.cnt == 2 => s.g.cm.odd |= if again { 18 } else { 2 },
            _ => (),
        }
        if gap.last() == Some(&S_BL) {
            s.g.cm.odd |= 4;
        }
        s.g.cm.last = if n.kinds >> self.tk("LineComment") & 1 == 1 { 2 } else { 1 };
        *s.node_mut(id) = Nd { t: 3, kinds: n.kinds, emitted: true, xrel: 7, ..Nd::default() };
        s.g.any = true;
        s.g.tail.clear();
        s.g.boff = 0;
        Some(s)
    }
    /// a token is printed: are the comments before it, and only they?
    fn comments_done(&mut self, st: &S<'g>, id: Id, site: &Site) -> bool {
        let h = &st.g;
        let m = self.describe(st, id);
        if !h.cms.is_empty() {
            self.bad(&["C03"], "comment", site, format!("a comment is not printed in its place {m}"));
            return false;
        }
        if h.cm.know == 0 && h.cm.n < self.row {
            self.bad(&["C03"], "comment", site, format!("comments are not looked for {m}"));
            return false;
        }
        if st.mem.values().any(|o| matches!(o, Obj::C(n) if n.t == 3 && n.cnt == 9 && !n.emitted)) {
            self.rep.und.insert(format!("{} prints a token while a later comment is held", site.func));
            return false;
        }
        true
    }
    fn tree(&self, id: Id, x: i32, own: bool) -> Val {
        let mut f = vec![Val::Any; 2];
        f[self.ti[0] as usize] = if x == SELF { g(NKIND, id, 0, 0) } else { Val::Any };
        f[self.ti[1] as usize] = g(KIDS | if own { OWN } else { 0 }, id, x, 0);
        agg(0, f)
    }
    // ---- facts ----
    fn kset(&self, st: &S<'g>, h: &G) -> Option<u128> {
        let n = st.node_opt(h.id)?;
        Some(match (n.t, h.x) {
            (0 | 3, _) => n.kinds,
            (_, FIRST) => n.fmask & self.gr.first[&n.kind],
            (_, LAST) => self.gr.last[&n.kind],
            (_, x) if x >= AT => match &self.gr.nfa[&n.kind].pos[(x - AT) as usize] {
                Some(Pos { sym: Sym::T(t), .. }) => 1 << t,
                _ => return None,
            },
            _ => return None,
        })
    }
    fn ksplit(&self, st: &S<'g>, h: &G, m: u128) -> (Option<S<'g>>, Option<S<'g>>) {
        let Some(k) = self.kset(st, h) else { return (Some(st.clone()), Some(st.clone())) };
        if st.node(h.id).wide {
            self.asked.set(self.asked.get() | if m.count_ones() > 64 { !m } else { m });
        }
        let put = |v: u128| {
            if v == 0 {
                return None;
            }
            let mut s = st.clone();
            let n = s.node_mut(h.id);
            match (n.t, h.x) {
                (0 | 3, _) => n.kinds = v,
                (_, FIRST) => n.fmask = v,
                _ => (),
            }
            Some(s)
        };
        (put(k & m), put(k & !m))
    }
    fn asks(&self, st: &S<'g>, q: Q) -> Vec<(S<'g>, bool)> {
        let bits = |cur: u8, set: &dyn Fn(&mut S<'g>, u8)| {
            let mut v = vec![];
            for (m, r) in [(1u8, false), (6u8, true)] {
                if cur & m != 0 {
                    let mut s = st.clone();
                    set(&mut s, cur & m);
                    v.push((s, r));
                }
            }
            v
        };
        if !self.style && !matches!(q, Q::First(..) | Q::Last(..) | Q::Len(..)) {
            return vec![(st.clone(), false), (st.clone(), true)];
        }
        match q {
            Q::Ml(i) => match st.node_opt(i) {
                Some(n) if n.t == 1 => bits(n.ml, &|s, v| s.node_mut(i).ml = v),
                _ => vec![(st.clone(), false), (st.clone(), true)],
            },
            Q::Pml(i) => match st.node_opt(i) {
                Some(n) => {
                    let cur = if n.ml == 1 { 1 } else { n.pml };
                    bits(cur, &|s, v| s.node_mut(i).pml = v)
                }
                _ => vec![(st.clone(), false), (st.clone(), true)],
            },
            Q::Has(i, k) => match st.node_opt(i) {
                Some(n) => {
                    if n.has_y >> k & 1 == 1 {
                        return vec![(st.clone(), true)];
                    }
                    if n.has_n >> k & 1 == 1 || self.gr.inside[&n.kind] >> k & 1 == 0 {
                        return vec![(st.clone(), false)];
                    }
                    let (mut y, mut z) = (st.clone(), st.clone());
                    y.node_mut(i).has_y |= 1 << k;
                    z.node_mut(i).has_n |= 1 << k;
                    // what is not there is not there in a part either
                    vec![(y, true), (z, false)]
                }
                None => vec![],
            },
            Q::Len(i, m) => match st.node_opt(i) {
                Some(n) => {
                    let mut v = vec![];
                    let mut lens = n.lens;
                    if n.pos != 0 && n.counted {
                        // what was taken plus what can still come
                        let r = self.rem[&n.kind][n.pos as usize];
                        let mut can = 0u16;
                        for i in 0..9 {
                            if r >> i & 1 == 1 {
                                can |= 1 << (i + n.cnt as usize).min(8);
                            }
                        }
                        lens &= can;
                    }
                    for (m, r) in [(lens & m, true), (lens & !m, false)] {
                        if m != 0 {
                            let mut s = st.clone();
                            let n = s.node_mut(i);
                            if n.pos != 0 && !n.counted {
                                // too late to count: nothing is known
                            } else {
                                n.lens = m;
                            }
                            v.push((s, r));
                        }
                    }
                    v
                }
                None => vec![],
            },
            Q::First(i, t) => {
                let (a, b) = self.ksplit(st, &G { t: TKIND, id: i, x: FIRST, y: 0 }, 1 << t);
                a.map(|s| (s, true)).into_iter().chain(b.map(|s| (s, false))).collect()
            }
            Q::Last(t) => {
                if st.g.last == 0 {
                    return vec![(st.clone(), false)];
                }
                let (a, b) = self.ksplit(st, &G { t: TKIND, id: st.g.last, x: SELF, y: 0 }, 1 << t);
                a.map(|s| (s, true)).into_iter().chain(b.map(|s| (s, false))).collect()
            }
            Q::Rel(n, c) => {
                // the piece after the operator, if somebody looked at it; else nothing is known
                let cp = st.node_opt(c).map(|x| x.cpos).unwrap_or(0);
                let sib = st.g.order.iter().map(|o| o.0).find(|i| *i != c && st.node_opt(*i).is_some_and(|x| x.par == n && x.ppos == cp));
                match sib {
                    Some(i) => {
                        let cur = if st.node(i).inl && st.node(c).inl { 1 } else { st.node(i).xrel };
                        bits(cur, &|s, v| s.node_mut(i).xrel = v)
                    }
                    None => vec![(st.clone(), false), (st.clone(), true)],
                }
            }
            Q::Rest => match st.g.gapd {
                g => {
                    let mut v = vec![];
                    for (m, r) in [(3u8, false), (4u8, true)] {
                        if g & m != 0 {
                            let mut s = st.clone();
                            s.g.gapd = g & m;
                            v.push((s, r));
                        }
                    }
                    v
                }
            },
        }
    }
    fn any_of(&self, st: &S<'g>, qs: &[Q]) -> Vec<(S<'g>, bool)> {
        // what is known already decides first
        let known = |s: &S<'g>, q: Q| {
            let r = self.asks(s, q);
            if r.len() == 1 { Some(r[0].1) } else { None }
        };
        if qs.iter().any(|q| known(st, *q) == Some(true)) {
            return vec![(st.clone(), true)];
        }
        let mut open = vec![st.clone()];
        let mut out = vec![];
        for q in qs {
            let mut next = vec![];
            for s in open {
                for (s2, r) in self.asks(&s, *q) {
                    if r { out.push((s2, true)) } else { next.push(s2) }
                }
            }
            open = next;
        }
        out.extend(open.into_iter().map(|s| (s, false)));
        out
    }
    fn x(&self, st: &S<'g>, n: &Nd) -> i8 {
        n.lvl + (n.grp != 0 && st.node_opt(n.grp).is_some_and(|g| g.w)) as i8
    }
    // ---- the style sheet ----
    fn rule(&self, st: &S<'g>, nid: Id, cid: Id) -> Vec<(S<'g>, Rl)> {
        let n = st.node(nid).clone();
        let c = st.node(cid).clone();
        let k = self.gr.kinds[n.kind as usize].as_str();
        let (p, s) = (self.symname(n.kind, c.ppos), self.symname(n.kind, c.cpos));
        let l = self.x(st, &n);
        let r = |q: u8, inc: i8| Rl { q, cat: 0, rl: l + inc, lvl: l + inc, w: false, grp: 0, wrap: false };
        let rw = |q: u8, inc: i8, w: bool| Rl { w, ..r(q, inc) };
        let rc = |q: u8, inc: i8, cat: u8| Rl { cat, ..r(q, inc) };
        let one = |x: Rl| vec![(st.clone(), x)];
        let on = |q: &[Q], f: &dyn Fn(bool) -> Rl| -> Vec<(S<'g>, Rl)> { self.any_of(st, q).into_iter().map(|(s, b)| (s, f(b))).collect() };
        let same = |q: u8| Rl { q, cat: 0, rl: n.rl, lvl: n.lvl, w: false, grp: 1, wrap: false };
        let newg = |q: u8, inc: i8| Rl { grp: 2, ..r(q, inc) };
        let list = |y: bool, q: u8, inc: i8| Rl { w: y, ..rc(if y { BREAK } else { q }, inc, LIST) };
        let wrapped = [Q::Ml(nid), Q::Has(nid, self.k("DescriptionString")), Q::Has(nid, self.k("AnnotationClause")), Q::Has(nid, self.k("ConstrainingClause"))];
        let first = p.is_empty();
        match k {
            "StoredDefinition" => one(match (p, s) {
                ("", _) => r(INH, 0),
                (_, "Name") | ("Within", "Semicolon") | ("Final", "ClassDefinition") => r(SPACE, 0),
                (_, "Semicolon") => r(NONE, 0),
                _ => r(LEGAL, 0),
            }),
            "ClassDefinition" | "ClassPrefixes" | "TypePrefix" | "ShortClassDefinition" | "ElementModificationOrReplaceable" | "InheritanceModification" => one(r(if first { INH } else { SPACE }, 0)),
            "ElementRedeclaration" => one(r(if first { INH } else { SPACE }, 0)),
            "LongClassSpecifier" => one(match s {
                _ if first => r(INH, 0),
                "Identifier" => r(SPACE, 0),
                "DescriptionString" => r(BREAK, 1),
                "Composition" => r(UNKNOWN, 0),
                "End" => r(BLANK, 0),
                _ => r(NONE, 0),
            }),
            "ShortClassSpecifier" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                ("LParen", "EnumList") => on(&[Q::Pml(nid), Q::Has(cid, self.k("Description"))], &|y| list(y, NONE, 1)),
                ("Equal", _) | (_, "Equal") | ("Input" | "Output" | "BasePrefix", _) => one(r(SPACE, 0)),
                (_, "Description") => one(r(BREAK, 1)),
                _ => one(r(NONE, 0)),
            },
            "DerClassSpecifier" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                ("Equal", _) | (_, "Equal") => one(r(SPACE, 0)),
                (_, "TypeSpecifier") => on(&[Q::Pml(nid)], &|y| list(y, NONE, 1)),
                ("Comma", "Identifier") => on(&[Q::Pml(nid)], &|y| list(y, SPACE, 1)),
                (_, "Description") => one(r(BREAK, 1)),
                _ => one(r(NONE, 0)),
            },
            "EnumList" | "ArgumentList" | "ArgumentOrInheritanceModificationList" | "ExpressionList" | "ImportList" => {
                let g = if k == "ExpressionList" { 2 } else { 0 };
                match (p, s) {
                    ("", _) => one(Rl { grp: g, ..r(INH, 0) }),
                    (_, "Comma") => one(r(NONE, 0)),
                    _ if n.w => one(Rl { grp: g, ..rc(BREAK, 0, LIST) }),
                    _ => on(&[Q::Ml(nid)], &|y| Rl { grp: g, ..rc(if y { BREAK } else { SPACE }, 0, LIST) }),
                }
            }
            "Composition" => one(match (p, s) {
                (_, "ElementList" | "ExternalFunctionCall") => r(BLANK, 1),
                (_, "LanguageSpecification") => r(SPACE, 0),
                ("External" | "LanguageSpecification" | "ExternalFunctionCall", "AnnotationClause") => r(BREAK, 2),
                (_, "AnnotationClause") => r(BLANK, 1),
                (_, "Semicolon") => r(NONE, 0),
                _ => r(BLANK, 0),
            }),
            "ExternalFunctionCall" => match (p, s) {
                ("", _) => one(r(INH, 1)),
                ("Equal", _) | (_, "Equal") => one(r(SPACE, 1)),
                (_, "ExpressionList") => on(&[Q::Pml(nid)], &|y| list(y, NONE, 1)),
                _ => one(r(NONE, 1)),
            },
            "ElementList" => one(match (p, s) {
                ("", _) => r(INH, 0),
                (_, "Semicolon") => r(NONE, 0),
                _ => r(LEGAL, 0),
            }),
            "Element" | "ElementReplaceable" => one(match s {
                _ if first => r(INH, 0),
                "ConstrainingClause" | "Description" => r(BREAK, 1),
                _ => r(SPACE, 0),
            }),
            "ImportClause" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                ("Import" | "Equal", _) | (_, "Equal") => one(r(SPACE, 0)),
                (_, "ImportList") => on(&[Q::Pml(nid)], &|y| list(y, NONE, 1)),
                (_, "Description") => one(r(BREAK, 1)),
                _ => one(r(NONE, 0)),
            },
            "ExtendsClause" => one(match s {
                _ if first => r(INH, 0),
                "TypeSpecifier" => r(SPACE, 0),
                "AnnotationClause" => r(BREAK, 1),
                _ => r(NONE, 0),
            }),
            "ConstrainingClause" => one(match s {
                _ if first => r(INH, 0),
                "TypeSpecifier" => r(SPACE, 0),
                _ => r(NONE, 0),
            }),
            "ClassModification" | "ClassOrInheritanceModification" => match (p, s) {
                ("", _) => one(r(INH, 1)),
                (_, "RParen") => one(r(NONE, 1)),
                _ => on(&wrapped, &|y| list(y, NONE, 1)),
            },
            "ComponentClause" => one(match s {
                _ if first => r(INH, 0),
                "ComponentList" => r(UNKNOWN, 0),
                "TypeSpecifier" => r(SPACE, 0),
                _ => r(NONE, 0),
            }),
            "ComponentList" => match s {
                "Comma" => one(r(NONE, 0)),
                _ => {
                    let mut out = vec![];
                    for (s2, y) in self.asks(st, Q::Len(nid, !3)) {
                        let v = if y { self.any_of(&s2, &wrapped) } else { vec![(s2, false)] };
                        for (s3, y) in v {
                            out.push((s3, list(y, SPACE, y as i8)));
                        }
                    }
                    out
                }
            },
            "ComponentDeclaration" | "ComponentDeclaration1" | "EnumerationLiteral" | "ElementModification" => one(match s {
                _ if first => r(INH, 0),
                "ConditionAttribute" => r(SPACE, 0),
                "Description" | "DescriptionString" => r(BREAK, 1),
                _ => r(UNKNOWN, 0),
            }),
            "ConditionAttribute" => one(if first { r(INH, 0) } else { newg(SPACE, 0) }),
            "Declaration" => one(match s {
                _ if first => r(INH, 0),
                "Modification" => r(UNKNOWN, 0),
                _ => r(NONE, 0),
            }),
            "Modification" => match s {
                "Equal" | "Assign" => one(r(SPACE, 0)),
                "ClassModification" => one(r(NONE, 0)),
                _ => self.ifl(st, cid, &|y| rc(if y { BREAK } else { SPACE }, y as i8, COND)),
            },
            "ModificationExpression" | "FunctionArgument" => one(match s {
                "Expression" => newg(INH, 0),
                _ => r(INH, 0),
            }),
            "ComponentClause1" => one(if first { r(INH, 0) } else { r(SPACE, 0) }),
            "EquationSection" | "AlgorithmSection" => one(match (p, s) {
                ("", _) => r(INH, 0),
                (_, "Equation" | "Algorithm") if c.t == 0 => r(SPACE, 0),
                ("Equation" | "Algorithm", _) if p_is_tok(self, n.kind, c.ppos) => r(BLANK, 1),
                (_, "Semicolon") => r(NONE, 1),
                _ => r(LEGAL, 1),
            }),
            "Equation" | "Statement" => match (p, s) {
                (_, "Description") => one(r(BREAK, 1)),
                (_, "SimpleExpression") => one(newg(INH, 0)),
                (_, "OutputExpressionList") => one(newg(NONE, 0)),
                ("", _) => one(r(INH, 0)),
                (_, "Expression") => self.ifl(st, cid, &|y| Rl { grp: 2, ..rc(if y { BREAK } else { SPACE }, y as i8, COND) }),
                (_, "Equal" | "Assign") | ("Assign", _) => one(r(SPACE, 0)),
                (_, "RParen") => on(&[Q::Last(self.tk("Comma"))], &|y| r(if y { SPACE } else { NONE }, 0)),
                _ => one(r(NONE, 0)),
            },
            "IfEquation" | "IfStatement" | "ForEquation" | "ForStatement" | "WhileStatement" | "WhenEquation" | "WhenStatement" => one(match (p, s) {
                ("", _) => r(INH, 0),
                (_, "Expression") => newg(SPACE, 0),
                ("End", _) | (_, "ForIndices" | "Then" | "Loop") => r(SPACE, 0),
                (_, "Semicolon") => r(NONE, 0),
                (_, "Equation" | "Statement") => r(LEGAL, 1),
                _ => r(LEGAL, 0),
            }),
            "ForIndices" => one(match s {
                _ if first => r(INH, 0),
                "Comma" => r(NONE, 0),
                _ => r(SPACE, 0),
            }),
            "ForIndex" => one(match s {
                _ if first => r(INH, 0),
                "Expression" => newg(SPACE, 0),
                _ => r(SPACE, 0),
            }),
            "ConnectEquation" => match (p, s) {
                ("", _) => one(r(INH, 1)),
                ("LParen", _) => on(&[Q::Ml(nid)], &|y| list(y, NONE, 1)),
                ("Comma", _) => on(&[Q::Ml(nid)], &|y| list(y, SPACE, 1)),
                _ => one(r(NONE, 1)),
            },
            "Expression" => match (p, s) {
                (_, "SimpleExpression") => one(same(INH)),
                ("", _) => one(r(INH, 0)),
                ("If" | "ElseIf", _) | (_, "Then") => one(newg(SPACE, 0)),
                ("Then" | "Else", _) => on(&[Q::Ml(nid)], &|y| Rl { grp: 2, ..rc(if y { BREAK } else { SPACE }, 1, COND) }),
                _ => on(&[Q::Ml(nid)], &|y| rc(if y { BREAK } else { SPACE }, 0, COND)),
            },
            "SimpleExpression" => one(if first { same(INH) } else { same(SPACE) }),
            "LogicalFactor" => one(if first { same(INH) } else { same(SPACE) }),
            "LogicalExpression" | "LogicalTerm" | "Relation" | "ArithmeticExpression" | "Term" | "Factor" => {
                let op = matches!(s, "Or" | "And" | "RelationalOperator" | "AddOperator" | "MulOperator" | "Flex" | "DotFlex");
                if first {
                    one(same(INH))
                } else if op {
                    on(&[Q::Rel(nid, cid)], &|y| Rl { q: if y { BREAK } else { SPACE }, cat: OPER, rl: n.lvl + 1, lvl: n.lvl + 1, w: false, grp: 1, wrap: y })
                } else if k == "ArithmeticExpression" && p == "AddOperator" && self.unary(&n, c.ppos) {
                    one(same(NONE))
                } else {
                    one(same(SPACE))
                }
            }
            "Primary" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                (_, "OutputExpressionList") => one(same(NONE)),
                ("LBracket" | "LCurly", _) => {
                    let mut out = vec![];
                    for (s2, y) in self.asks(st, Q::Ml(nid)) {
                        if s == "ExpressionList" && y {
                            for (s3, one) in self.asks(&s2, Q::Len(nid, 1 << 3)) {
                                out.push((s3, Rl { w: one, ..list(y, NONE, 1) }));
                            }
                        } else {
                            out.push((s2, list(y, NONE, 1)));
                        }
                    }
                    out
                }
                ("Semicolon", _) => on(&[Q::Ml(nid)], &|y| Rl { w: false, ..list(y, SPACE, 1) }),
                (_, "RParen") => on(&[Q::Last(self.tk("Comma"))], &|y| r(if y { SPACE } else { NONE }, 0)),
                _ => one(r(NONE, 0)),
            },
            "ResultReference" => one(match p {
                "" => r(INH, 0),
                "Comma" => r(SPACE, 0),
                _ => r(NONE, 0),
            }),
            "FunctionCallArgs" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                (_, "FunctionArguments") => on(&[Q::Ml(nid)], &|y| list(y, NONE, 1)),
                _ => one(r(NONE, 0)),
            },
            "FunctionArguments" | "FunctionArgumentsNonFirst" | "ArrayArguments" | "ArrayArgumentsNonFirst" | "NamedArguments" => {
                let w = n.w;
                let g = if s == "Expression" { 2 } else { 0 };
                one(match (p, s) {
                    ("", _) => Rl { grp: g, ..rw(INH, 0, w) },
                    (_, "Comma") => r(NONE, 0),
                    ("Comma", _) | (_, "For") => Rl { w, grp: g, ..rc(if w { BREAK } else { SPACE }, 0, LIST) },
                    _ => r(SPACE, 0),
                })
            }
            "NamedArgument" => match s {
                _ if first => one(r(INH, 0)),
                "Equal" => one(r(SPACE, 0)),
                _ => self.ifl(st, cid, &|y| rc(if y { BREAK } else { SPACE }, y as i8, COND)),
            },
            "FunctionPartialApplication" => match s {
                _ if first => one(r(INH, 0)),
                "TypeSpecifier" => one(r(SPACE, 0)),
                "NamedArguments" => on(&[Q::Pml(nid)], &|y| list(y, NONE, 0)),
                _ => one(r(NONE, 0)),
            },
            "OutputExpressionList" => match (p, s) {
                ("", "Comma") => on(&[Q::Last(self.tk("LParen"))], &|y| r(if y { SPACE } else { INH }, 0)),
                ("", _) => one(same(INH)),
                ("Comma", _) => one(if s == "Comma" { r(SPACE, 0) } else { same(SPACE) }),
                _ => one(r(NONE, 0)),
            },
            "ArraySubscripts" => match (p, s) {
                ("", _) => one(r(INH, 1)),
                ("LBracket", _) => on(&[Q::Ml(nid)], &|y| list(y, NONE, 1)),
                ("Comma", _) => on(&[Q::Ml(nid)], &|y| list(y, SPACE, 1)),
                _ => one(r(NONE, 1)),
            },
            "Subscript" => one(newg(INH, 0)),
            "Description" => one(if first { r(INH, 0) } else { r(BREAK, 0) }),
            "DescriptionString" => match (p, s) {
                ("", _) => one(r(INH, 0)),
                (_, "Plus") => on(&[Q::Ml(nid)], &|y| rc(if y { BREAK } else { SPACE }, 1, COND)),
                _ => one(r(SPACE, 0)),
            },
            "AnnotationClause" => one(if first { r(INH, 0) } else { r(SPACE, 0) }),
            // names, references, single tokens
            _ => one(r(if first { INH } else { NONE }, 0)),
        }
    }
    fn unary(&self, n: &Nd, ppos: u8) -> bool {
        // the sign in front is the position that can come first
        self.gr.nfa[&n.kind].follow[0].contains(&(ppos as usize))
    }
    fn ifl(&self, st: &S<'g>, c: Id, f: &dyn Fn(bool) -> Rl) -> Vec<(S<'g>, Rl)> {
        let mut out = vec![];
        for (s, y) in self.asks(st, Q::Ml(c)) {
            if !y {
                out.push((s, f(false)));
                continue;
            }
            for (s, y) in self.asks(&s, Q::First(c, self.tk("If"))) {
                out.push((s, f(y)));
            }
        }
        out
    }
    /// settle what the style wants before the piece that comes next
    fn evaluate(&mut self, st: &S<'g>, id: Id) -> Vec<S<'g>> {
        let Some(c) = st.node_opt(id) else { return vec![st.clone()] };
        if c.ev {
            return vec![st.clone()];
        }
        let par = c.par;
        let Some(n) = st.node_opt(par) else { return vec![st.clone()] };
        if !n.ev {
            let v = self.evaluate(st, par);
            let mut out = vec![];
            for s in v {
                if s.node(par).ev {
                    out.extend(self.evaluate(&s, id));
                } else {
                    out.push(s);
                }
            }
            return out;
        }
        let n = n.clone();
        self.judged.insert((n.kind, c.ppos, c.cpos));
        let mut out = vec![];
        for (mut s, r) in self.rule(st, par, id) {
            let mut r = r;
            if r.q == INH {
                r.q = n.q;
                r.cat = n.cat;
                r.rl = n.rl;
            }
            let grp = match r.grp {
                1 => n.grp,
                2 => s.alloc(Obj::C(Nd { t: 2, ..Nd::default() })),
                _ => 0,
            };
            if r.wrap && n.grp != 0 {
                s.node_mut(n.grp).w = true;
            }
            let c = s.node_mut(id);
            c.ev = true;
            c.q = r.q;
            c.cat = r.cat;
            c.rl = r.rl;
            c.lvl = r.lvl;
            c.w = r.w;
            c.grp = if c.t == 0 { 0 } else { grp };
            c.par = 0;
            c.ppos = 0;
            c.cpos = 0;
            if r.q == LEGAL && st.g.cm.n > 0 {
                s.node_mut(id).q = BREAK;
                s.node_mut(id).cat |= 8;
                out.push(s);
            } else if r.q == LEGAL {
                for (mut s2, y) in self.asks(&s, Q::Rest) {
                    s2.node_mut(id).q = if y { BLANK } else { BREAK };
                    s2.node_mut(id).cat |= 8;
                    out.push(s2);
                }
            } else {
                out.push(s);
            }
        }
        out
    }
    fn describe(&self, st: &S<'g>, id: Id) -> String {
        let p = match st.node_opt(st.g.last) {
            Some(n) if st.g.last != 0 => format!("after {}", names(&self.gr.toks, n.kinds)),
            _ => "at the start".into(),
        };
        let c = st.node_opt(id).map(|n| names(&self.gr.toks, n.kinds)).unwrap_or_default();
        format!("{p}, before {c}")
    }
    fn props(cat: u8) -> &'static str {
        match cat & 7 {
            LIST => "C17",
            OPER => "C18",
            _ => "C16",
        }
    }
    fn check(&mut self, st: &S<'g>, id: Id, site: &Site) -> bool {
        self.obligations += 1;
        let n = st.node(id).clone();
        let h = &st.g;
        let gap: Vec<u8> = h.tail.iter().cloned().filter(|m| *m <= S_BL).collect();
        let cm = h.cm;
        let act = match gap.as_slice() {
            [] => NONE,
            [S_SP] => SPACE,
            [S_BR] => BREAK,
            [S_BL] => BLANK,
            _ => {
                let p: &[&str] = if gap.iter().all(|m| *m == S_SP) { &["C15", "C21"] } else { &["C21"] };
                let m = self.describe(st, id);
                self.bad(p, "stray-space", site, format!("white space is printed more than once {m}"));
                return false;
            }
        };
        // neighbours that would be read as something else
        if cm.last == 2 && act != BREAK && act != BLANK {
            let m = self.describe(st, id);
            self.bad(&["C02", "C03"], "swallowed", site, format!("code follows a comment that lasts to the end of the line {m}"));
            return false;
        }
        if self.style && act == NONE && h.last != 0 && cm.last == 0 {
            if let Some(e) = st.node_opt(h.last) {
                if let Some((a, b)) = self.merges(e.kinds, n.kinds) {
                    self.bad(&["C02", "C15"], "merge", site, format!("{a} is followed by {b} without a space"));
                }
            }
        }
        if !n.ev || n.q == UNKNOWN {
            self.unjudged += 1;
            if std::env::var("ENGINE_UNJ").is_ok() {
                eprintln!("UNJ {} {:?} {:?}", site.path().join(" < "), n, h);
            }
            return true;
        }
        let m = self.describe(st, id);
        let word = |q: u8| ["?", "nothing", "a space", "a line break", "an empty line", "?", "nothing"][q as usize];
        let say = format!("{} instead of {} {m}", word(act), word(n.q));
        let c = Self::props(n.cat);
        let rest = self.slot(st, Slot::Gap);
        match (n.q, act) {
            // with comments in between
            (BREAK | BLANK, BREAK | BLANK) if cm.n > 0 => {
                let say = |w: &str| format!("{w} {m}, where there are comments");
                if n.cat & 8 != 0 || n.q == BREAK {
                    let odd = cm.odd | if act == BLANK && rest != 4 { 1 } else { 0 } | if act == BREAK && rest & 4 != 0 { 2 } else { 0 };
                    if odd & 1 != 0 {
                        self.bad(&["C22"], "blank", site, say("an empty line that is not in the source"));
                    }
                    if odd & 2 != 0 && n.cat & 8 != 0 {
                        self.bad(&["C22"], "blank", site, say("an empty line is lost"));
                    }
                } else if act != BLANK && !cm.blank {
                    self.bad(&["C22"], "blank", site, say("no empty line"));
                } else if cm.odd & 8 != 0 || cm.odd & 4 != 0 && act == BLANK && rest != 4 {
                    self.bad(&["C22"], "blank", site, say("a second empty line that is not in the source"));
                } else if cm.odd & 16 != 0 || cm.odd & 4 != 0 && act == BREAK && rest & 4 != 0 {
                    self.bad(&["C22"], "blank", site, say("an empty line is lost"));
                }
            }
            (NONE | SPACE | START, _) if cm.n > 0 => (),
            (START, NONE) => (),
            (START, _) => self.bad(&["C21"], "leading", site, format!("{} {m}", word(act))),
            (a, b) if a == b => (),
            (NONE | SPACE, NONE | SPACE) => self.bad(&["C15"], "spacing", site, say),
            (BREAK | BLANK, BREAK | BLANK) => self.bad(&["C22"], "blank", site, say),
            (NONE | SPACE, BREAK | BLANK) => {
                let p: &[&str] = if c == "C16" { &["C15", "C16"] } else { &[c] };
                self.bad(p, "split", site, say)
            }
            _ => {
                let p: &[&str] = if c == "C16" && n.q == BLANK { &["C16", "C22"] } else { &[c] };
                self.bad(p, "no-break", site, say)
            }
        }
        if matches!(n.q, BREAK | BLANK) && matches!(act, BREAK | BLANK) && h.boff != n.rl {
            let by = h.boff - n.rl;
            let p: &[&str] = match c {
                "C16" => &["C05", "C16"],
                "C17" => &["C05", "C16", "C17"],
                _ => &["C05", "C16", "C18"],
            };
            self.bad(p, "indent", site, format!("the line is indented by {} level{} too {} {m}", by.abs(), if by.abs() == 1 { "" } else { "s" }, if by > 0 { "much" } else { "little" }));
            return false;
        }
        true
    }
    fn merges(&self, a: u128, b: u128) -> Option<(String, String)> {
        for i in 0..self.gr.toks.len() {
            if a >> i & 1 == 0 {
                continue;
            }
            for j in 0..self.gr.toks.len() {
                if b >> j & 1 == 1 && merge(&self.gr.toks[i], &self.gr.toks[j]) {
                    return Some((self.gr.toks[i].clone(), self.gr.toks[j].clone()));
                }
            }
        }
        None
    }
    fn emit(&mut self, st: &S<'g>, id: Id, site: &Site) -> Option<S<'g>> {
        self.emits.insert(site.span.clone());
        let Some(n) = sset(st, id) else { return None };
        if n.t == 3 {
            return self.emit_comment(st, id, site);
        }
        if n.t != 0 {
            return None;
        }
        let at = st.g.order.iter().position(|o| o.0 == id);
        let Some(at) = at else {
            if n.emitted {
                self.bad(&["C01"], "duplicate", site, format!("{} is printed twice", names(&self.gr.toks, n.kinds)));
            } else {
                self.rep.und.insert(format!("token printed in {}", site.func));
            }
            return None;
        };
        if st.g.order[..at].iter().any(|o| o.0 != GONE) {
            self.bad(&["C01"], "order", site, format!("{} is printed before what precedes it in the source", names(&self.gr.toks, n.kinds)));
            return None;
        }
        // what follows a wrong line would only be wrong again
        if !self.comments_done(st, id, site) || !self.check(st, id, site) {
            return None;
        }
        let mut s = st.clone();
        if s.g.order[at].1 {
            s.g.order.remove(at);
        } else {
            s.g.order[at].0 = GONE;
        }
        let kinds = n.kinds;
        *s.node_mut(id) = Nd { t: 0, kinds, emitted: true, xrel: 7, ..Nd::default() };
        s.g.last = id;
        s.g.any = true;
        self.stale(&mut s);
        s.g.printed = true;
        s.g.tail.clear();
        s.g.boff = 0;
        s.g.gapd = 7;
        s.g.cm = Gap::default();
        for o in s.mem.values_mut() {
            if let Obj::C(n) = o {
                n.xrel = 7;
            }
        }
        Some(s)
    }
    /// the marker that is that far from the end
    fn tail_at(&self, st: &S<'g>, i: usize) -> Val {
        let n = st.g.tail.len();
        if i < n {
            let v = match st.g.tail[n - 1 - i] {
                S_IN => 1,
                S_DE => 2,
                S_SP => 3,
                S_BL => 4,
                _ => 5,
            };
            return some(refk(agg(self.mk[v], vec![])));
        }
        if !st.g.any || (i == n && st.g.last == 0 && !st.g.printed && st.g.cm.last == 0) {
            return none();
        }
        if i == n {
            return some(refk(agg(self.mk[0], vec![g(TEXT, st.g.last, SELF, 0)])));
        }
        Val::Top
    }
    /// a token marker is added
    fn print(&mut self, st: &S<'g>, v: Val, site: &Site) -> B<Self> {
        self.emits.insert(site.span.clone());
        let v = st.load_all(&v);
        match &v {
            Val::G(G { t, id, x: SELF, .. }) if t & !OWN == TEXT && *id != 0 => {
                let states = if front(&st.g) == Some(*id) { self.evaluate(st, *id) } else { vec![st.clone()] };
                let mut out = vec![];
                for s in states {
                    out.extend(self.emit(&s, *id, site).map(|s| (s, unit())));
                }
                B::Outs(out)
            }
            Val::Str(s) => {
                self.bad(&["C01"], "inserted", site, format!("the text {s:?} is printed, which is no token of the source"));
                B::Outs(vec![])
            }
            Val::Agg(ALTERED, f) => {
                let c = matches!(f.first(), Some(Val::G(G { id, .. })) if st.node_opt(*id).is_some_and(|n| n.t == 3));
                self.bad(&[if c { "C03" } else { "C01" }], "altered", site, "the text of a token is changed before it is printed".into());
                B::Outs(vec![])
            }
            _ => B::Unknown(format!("unknown text printed by {}", site.func)),
        }
    }
    /// how many markers there are at least, and is that their number
    fn markers(&self, st: &S<'g>) -> (i128, bool) {
        let n = st.g.tail.len() as i128;
        if !st.g.any {
            return (0, true);
        }
        if st.g.last == 0 && !st.g.printed && st.g.cm.last == 0 { (n, true) } else { (n + 1, false) }
    }
    /// the number of markers changes
    fn stale(&self, st: &mut S<'g>) {
        if st.g.mlen {
            st.g.mlen = false;
            for o in st.mem.values_mut() {
                if let Obj::V(v) = o {
                    unlen(v);
                }
            }
        }
    }
    fn mark(&mut self, st: &S<'g>, m: u8, site: &Site) -> Option<S<'g>> {
        let mut s = st.clone();
        self.stale(&mut s);
        s.g.any = true;
        match m {
            S_IN | S_DE if !self.style => {
                if matches!(s.g.tail.last(), Some(x) if *x >= S_IN) {
                    s.g.tail.pop();
                }
                s.g.tail.push(m);
            }
            S_IN | S_DE => {
                let d = if m == S_IN { 1 } else { -1 };
                s.g.delta += d;
                s.g.low = s.g.low.min(s.g.delta);
                if s.g.tail.iter().any(|m| *m == S_BR || *m == S_BL) {
                    s.g.boff -= d;
                }
                for o in s.mem.values_mut() {
                    if let Obj::C(n) = o {
                        if n.ev {
                            n.lvl -= d;
                            n.rl -= d;
                        }
                    }
                }
                if s.g.delta.abs() > 8 {
                    self.bad(&["C05"], "balance", site, "indentation can grow without bound".into());
                    return None;
                }
                if matches!(s.g.tail.last(), Some(x) if *x >= S_IN) {
                    s.g.tail.pop();
                }
                s.g.tail.push(m);
            }
            _ => {
                if m >= S_BR {
                    s.g.boff = 0;
                    s.g.cm.last = s.g.cm.last.min(1);
                    s.g.cm.blank |= m == S_BL;
                }
                if s.g.tail.len() < 8 {
                    s.g.tail.push(m);
                }
            }
        }
        Some(s)
    }
    /// distance between two points of the source: where it is noted, and whether the first is the later one
    fn dist(&self, st: &S<'g>, a: &G, b: &G) -> Option<(Slot, bool)> {
        let h = &st.g;
        let (sa, sb) = (a.y & 1, b.y & 1);
        let is_e = |p: &G| if p.id == 0 { h.last == 0 } else { p.id == h.last && p.x == SELF && p.y & 1 == 1 };
        let start = |p: &G| p.id != 0 && p.y & 1 == 0 && (p.x == FIRST || p.x == SELF && st.node_opt(p.id).is_some_and(|n| n.t == 0));
        if is_e(a) && is_e(b) {
            return Some((Slot::Zero, true));
        }
        for (p, q, later) in [(a, b, true), (b, a, false)] {
            if start(p) && is_e(q) {
                let mut it = h.order.iter().map(|o| o.0).filter(|i| *i != GONE);
                let f = it.next();
                if f == Some(p.id) {
                    return Some((Slot::Gap, later));
                }
                if it.next() == Some(p.id) && f.is_some_and(|f| f > 9) {
                    return Some((Slot::X(p.id), later));
                }
            }
        }
        if a.id == b.id && a.id != 0 {
            if a.x == b.x && sa == sb {
                return Some((Slot::Zero, true));
            }
            match (a.x, sa, b.x, sb) {
                (LAST, 1, FIRST, 0) => return Some((Slot::Ml(a.id), true)),
                (FIRST, 0, LAST, 1) => return Some((Slot::Ml(a.id), false)),
                (x, _, y, _) if (x == FIRST || x == LAST) && (y == FIRST || y == LAST) => {
                    if st.node_opt(a.id).is_some_and(|n| n.ml == 1) {
                        return Some((Slot::Zero, true));
                    }
                }
                (x, 0, y, 0) if x >= AT && y >= AT => {
                    let n = st.node_opt(a.id)?;
                    let t = |x: i32| self.symname(n.kind, (x - AT) as u8).to_string();
                    match (t(x).as_str(), t(y).as_str()) {
                        ("RParen", "LParen") | ("RCurly", "LCurly") | ("RBracket", "LBracket") => return Some((Slot::Pml(a.id), true)),
                        ("LParen", "RParen") | ("LCurly", "RCurly") | ("LBracket", "RBracket") => return Some((Slot::Pml(a.id), false)),
                        _ => (),
                    }
                }
                _ => (),
            }
        }
        None
    }
    /// the lines the comments before the next token take
    fn past(&self, st: &S<'g>, s: Slot, later: bool) -> i8 {
        match s {
            Slot::Gap if later => st.g.cm.off,
            Slot::Gap => -st.g.cm.off,
            _ => 0,
        }
    }
    fn slot(&self, st: &S<'g>, s: Slot) -> u8 {
        match s {
            Slot::Zero => 1,
            Slot::Gap => {
                if st.g.cm.n == 0 && front(&st.g).and_then(|f| st.node_opt(f)).is_some_and(|n| n.inl) { 1 } else { st.g.gapd }
            }
            Slot::X(i) => {
                let f = front(&st.g).and_then(|f| st.node_opt(f)).is_some_and(|n| n.inl);
                if st.node(i).inl && f { 1 } else { st.node(i).xrel }
            }
            Slot::Ml(i) => st.node(i).ml,
            Slot::Pml(i) => {
                if st.node(i).ml == 1 { 1 } else { st.node(i).pml }
            }
        }
    }
    fn put(&self, st: &S<'g>, s: Slot, v: u8) -> S<'g> {
        let mut t = st.clone();
        if !self.style {
            return t;
        }
        match s {
            Slot::Zero => (),
            Slot::Gap => t.g.gapd = v,
            Slot::X(i) => t.node_mut(i).xrel = v,
            Slot::Ml(i) => t.node_mut(i).ml = v,
            Slot::Pml(i) => t.node_mut(i).pml = v,
        }
        t
    }
    fn cmp(&self, st: &S<'g>, op: &str, a: &G, b: &G) -> Outs<Self> {
        let Some((slot, later)) = self.dist(st, a, b) else { return self.cmp2(st, op, a, b) };
        let off = ((a.y >> 1) - (b.y >> 1)) as i64 + self.past(st, slot, later) as i64;
        let cur = self.slot(st, slot);
        let test = |d: i64| match op {
            "Lt" => d < 0,
            "Le" => d <= 0,
            "Gt" => d > 0,
            "Ge" => d >= 0,
            "Eq" => d == 0,
            _ => d != 0,
        };
        let (mut y, mut n) = (0u8, 0u8);
        for c in 0..3 {
            if cur >> c & 1 == 0 {
                continue;
            }
            let ds: Vec<i64> = if c == 2 { (2..8).collect() } else { vec![c] };
            for d in ds {
                let d = if later { d } else { -d } + off;
                if test(d) { y |= 1 << c } else { n |= 1 << c }
            }
        }
        let mut out = vec![];
        if y != 0 {
            out.push((self.put(st, slot, y), b1(true)));
        }
        if n != 0 {
            out.push((self.put(st, slot, n), b1(false)));
        }
        out
    }
    /// the last token of the tree that comes next, and what was printed last: the sum of two distances
    fn cmp2(&self, st: &S<'g>, op: &str, a: &G, b: &G) -> Outs<Self> {
        let top = vec![(st.clone(), Val::Top)];
        for (p, q, later) in [(a, b, true), (b, a, false)] {
            if p.id == 0 || p.x != LAST || !st.node_opt(p.id).is_some_and(|n| n.t == 1) {
                continue;
            }
            // the start of the last token: it ends on the same line, unless it is a text
            let end = G { y: p.y | 1, ..*p };
            let start = G { x: FIRST, y: p.y & !1, ..*p };
            let (Some((s1, _)), Some((s2, _))) = (self.dist(st, &end, &start), self.dist(st, &start, q)) else { continue };
            let off = ((a.y >> 1) - (b.y >> 1)) as i64 + self.past(st, s2, later) as i64;
            let mut out = vec![];
            for c1 in 0..3u8 {
                for c2 in 0..3u8 {
                    if self.slot(st, s1) >> c1 & 1 == 0 || self.slot(st, s2) >> c2 & 1 == 0 {
                        continue;
                    }
                    let d = (c1 + c2) as i64;
                    let d = if later { d } else { -d } + off;
                    let r = match op {
                        "Lt" => d < 0,
                        "Le" => d <= 0,
                        "Gt" => d > 0,
                        "Ge" => d >= 0,
                        _ if c1 < 2 && c2 < 2 => (d == 0) == (op == "Eq"),
                        _ if d.abs() > 3 => op != "Eq",
                        _ => return top,
                    };
                    out.push((self.put(&self.put(st, s1, 1 << c1), s2, 1 << c2), b1(r)));
                }
            }
            return out;
        }
        top
    }
    fn kids_of(&self, st: &S<'g>, v: &Val) -> Option<Val> {
        match st.load_all(v) {
            Val::Agg(_, t) => t.get(self.ti[1] as usize).cloned(),
            _ => None,
        }
    }
    /// did a search come to the end of the children
    fn ended(&self, st: &S<'g>) -> bool {
        st.g.scan.at == 255
    }
    /// can a kind still follow after this child
    fn rest_holds(&self, k: u8, at: u8, want: u8) -> bool {
        let a = &self.gr.nfa[&k];
        let mut seen = HashSet::new();
        let mut todo = vec![at as usize];
        while let Some(q) = todo.pop() {
            for f in &a.follow[q] {
                if let Some(Pos { sym: Sym::K(c), .. }) = &a.pos[*f] {
                    if *c == want || self.gr.inside[c] >> want & 1 == 1 {
                        return true;
                    }
                }
                if seen.insert(*f) {
                    todo.push(*f);
                }
            }
        }
        false
    }
    fn owned_front(&self, st: &S<'g>, args: &[Val]) -> Option<Id> {
        let f = front(&st.g)?;
        let n = st.node_opt(f)?;
        if n.ev || n.par == 0 {
            return None;
        }
        let mut hit = false;
        for a in args {
            val_ids(a, &mut |i, o| hit |= o && i == f);
        }
        hit.then_some(f)
    }
}
fn b1(x: bool) -> Val {
    Val::Int(x as i128)
}
fn p_is_tok(f: &Fmt, k: u8, p: u8) -> bool {
    matches!(&f.gr.nfa[&k].pos[p as usize], Some(Pos { sym: Sym::T(_), .. }))
}
#[derive(Clone, Copy)]
enum Slot {
    Zero,
    Gap,
    X(Id),
    Ml(Id),
    Pml(Id),
}
fn text_of(t: &str) -> Option<&'static str> {
    Some(match t {
        "Comma" => ",",
        "Dot" => ".",
        "Semicolon" => ";",
        "Colon" => ":",
        "LParen" => "(",
        "RParen" => ")",
        "LCurly" => "{",
        "RCurly" => "}",
        "LBracket" => "[",
        "RBracket" => "]",
        "Equal" => "=",
        "Assign" => ":=",
        "Plus" => "+",
        "Minus" => "-",
        "Star" => "*",
        "Slash" => "/",
        "Flex" => "^",
        "DotPlus" => ".+",
        "DotMinus" => ".-",
        "DotStar" => ".*",
        "DotSlash" => "./",
        "DotFlex" => ".^",
        "Gre" => ">",
        "Geq" => ">=",
        "Les" => "<",
        "Leq" => "<=",
        "Neq" => "<>",
        "Eq" => "==",
        _ => return None,
    })
}
/// would the two be read as something else when nothing is between them
fn merge(a: &str, b: &str) -> bool {
    let quoted = |t: &str| t == "String" || t == "LineComment" || t == "BlockComment";
    match (text_of(a), text_of(b)) {
        (Some(x), Some(y)) => {
            // a sign that is longer than the first one, or a comment, appears
            let z = format!("{x}{y}");
            const LONG: [&str; 12] = [":=", ".+", ".-", ".*", "./", ".^", ">=", "<=", "<>", "==", "//", "/*"];
            LONG.iter().any(|l| z.starts_with(l) && l.len() > x.len())
        }
        (None, None) => !quoted(a) && !quoted(b),
        (Some(x), None) => x == "." && (b == "UInt" || b == "UReal"),
        // a number takes the dot of the sign that follows
        (None, Some(y)) => (a == "UInt" && y.starts_with('.')) || (b == "Dot" && a == "UReal"),
    }
}

impl<'g> Client for Fmt<'g> {
    type N = Nd;
    type H = H;
    fn builtin(&mut self, ir: &Ir, c: &Callee, a: &[Val], st: &S<'g>, site: &Site) -> B<Self> {
        let d = c.decl.as_str();
        let last = d.rsplit("::").next().unwrap_or("");
        let one = |st: S<'g>, v: Val| B::Outs(vec![(st, v)]);
        let local = c.f.is_some_and(|f| ir.fns[f].krate == "mofmt");
        if local {
            let f = c.f.unwrap();
            let fun = &ir.fns[f];
            // is there a subtree of this kind
            if self.searchers.contains(&f) {
                if let (true, Some(Val::G(G { id, x, .. })), Val::Int(k)) = (st.g.scan.on, self.kids_of(st, &a[0]), st.load_all(&a[1])) {
                    // the answer for a smaller tree is taken for granted
                    let q = x - AT;
                    if x < AT || k as u8 != st.g.scan.k || q != st.g.scan.at as i32 {
                        return B::Unknown(format!("search in a part of a tree in {}", site.func));
                    }
                    let Some(Pos { sym: Sym::K(ck), .. }) = &self.gr.nfa[&st.node(id).kind].pos[q as usize] else { return B::No };
                    let mut out = vec![];
                    for y in [false, true] {
                        if !y || self.gr.inside[ck] >> k & 1 == 1 {
                            let mut s = st.clone();
                            s.g.scan.pend = false;
                            s.g.scan.found |= y;
                            out.push((s, b1(y)));
                        }
                    }
                    return B::Outs(out);
                }
                if let (Val::Agg(_, t), Val::Int(k)) = (st.load_all(&a[0]), st.load_all(&a[1])) {
                    if let Some(Val::G(G { t, id, x: SELF, .. })) = t.get(self.ti[1] as usize) {
                        if t & !OWN == KIDS {
                            return B::Outs(self.asks(st, Q::Has(*id, k as u8)).into_iter().map(|(s, r)| (s, b1(r))).collect());
                        }
                    }
                }
                return B::Unknown(format!("search in a part of a tree in {}", site.func));
            }
            if std::env::var("ENGINE_UNJ").is_ok() {
                eprintln!("CALL {} {:?} {:?} {:?}", fun.path, a, front(&st.g).map(|f| st.node_opt(f)), st.g.order);
            }
            if let Some(id) = self.owned_front(st, a) {
                let v = self.evaluate(st, id);
                return B::Mix(vec![], v.into_iter().map(|s| (f, a.to_vec(), s)).collect());
            }
            return B::No;
        }
        let selfty = c.dargs.first().map(|t| ir.types[*t].s.clone()).unwrap_or_default();
        if (last == "new" || last == "with_capacity") && d.contains("Vec") && c.dargs.first().is_some_and(|t| *t == self.markty) {
            return one(st.clone(), g(SINK, 0, 0, 0));
        }
        let v0 = a.first().map(|v| st.load_all(v)).unwrap_or(Val::Un);
        if last == "push" && d.contains("Vec") && matches!(v0, Val::G(G { t: SINK, .. })) {
            let Val::Agg(var, f) = &a[1] else { return B::Unknown(format!("marker pushed in {}", site.func)) };
            if *var == self.mk[0] {
                return self.print(st, f.first().cloned().unwrap_or(Val::Top), site);
            }
            let m = [(1, S_IN), (2, S_DE), (3, S_SP), (4, S_BL), (5, S_BR)].iter().find(|(i, _)| self.mk[*i] == *var).map(|x| x.1);
            return match m {
                Some(m) => B::Outs(self.mark(st, m, site).into_iter().map(|s| (s, unit())).collect()),
                None => B::Unknown("unknown marker".into()),
            };
        }
        if let Val::G(h) = &v0 {
            let (t, id, x) = (h.t & !OWN, h.id, h.x);
            match (t, last) {
                (CITER, "into_iter" | "peekable" | "into" | "from" | "by_ref") => return one(st.clone(), a[0].clone()),
                (CITER, "next" | "pop_front") => {
                    let mut out = vec![];
                    for (mut s, c) in self.head(st) {
                        let Some(c) = c else {
                            out.push((s, none()));
                            continue;
                        };
                        if s.node(c).pos == 1 {
                            // not of the next token
                            if s.mem.values().any(|o| matches!(o, Obj::C(n) if n.t == 3 && n.cnt == 9)) {
                                return B::Unknown(format!("{} takes comments before it is known where they belong", site.func));
                            }
                            s.node_mut(c).cnt = 9;
                        }
                        s.g.chead = 0;
                        let v = self.comment(&s, c, true);
                        out.push((s, some(v)));
                    }
                    return B::Outs(out);
                }
                (CITER, "peek" | "peek_mut" | "front" | "first") => {
                    let mut out = vec![];
                    for (s, c) in self.head(st) {
                        let v = c.map(|c| some(refk(self.comment(&s, c, false)))).unwrap_or(none());
                        out.push((s, v));
                    }
                    return B::Outs(out);
                }
                (CITER, "is_empty") => return B::Outs(self.head(st).into_iter().map(|(s, c)| (s, b1(c.is_none()))).collect()),
                (CITER, "len" | "size_hint") => return one(st.clone(), Val::Top),
                (CITER, "next_if") => (),
                (CITER, _) => return B::Unknown(format!("{} does {last} with the comments", site.func)),
                (SINK, "is_empty") => return one(st.clone(), b1(!st.g.any)),
                (SINK, "deref" | "deref_mut" | "as_slice" | "as_ref" | "borrow") => return one(st.clone(), a[0].clone()),
                (SINK, "iter") => return one(st.clone(), g(SITER, 0, 0, 0)),
                (SINK, "len") => {
                    let mut s = st.clone();
                    s.g.mlen = true;
                    return one(s, g(MLEN, 0, 0, 0));
                }
                (SINK, "get" | "index") if matches!(a.get(1), Some(Val::G(G { t: MLEN, .. }))) => {
                    let Val::G(m) = &a[1] else { return B::No };
                    let v = if m.y >= 0 { none() } else { self.tail_at(st, (-1 - m.y) as usize) };
                    if last == "get" {
                        return one(st.clone(), v);
                    }
                    return match v {
                        Val::Agg(_, f) if !f.is_empty() => one(st.clone(), f[0].clone()),
                        Val::Agg(..) => {
                            self.bad(&["C04"], "panic", site, format!("{} looks at a marker that is not there", site.func));
                            B::Outs(vec![])
                        }
                        _ => B::Unknown(format!("{} looks at the markers", site.func)),
                    };
                }
                (SINK, "last") => {
                    let v = self.tail_at(st, 0);
                    return one(st.clone(), v);
                }
                (SINK, "reserve" | "shrink_to_fit") => return one(st.clone(), unit()),
                (SITER, "next_back") => {
                    let Some(p) = st.last_ptr(&a[0]) else { return B::No };
                    let v = self.tail_at(st, x as usize);
                    let mut s = st.clone();
                    s.write_ptr(&p, g(SITER, 0, (x + 1).min(12), 0));
                    return one(s, v);
                }
                (SITER, "into_iter") => return one(st.clone(), v0.clone()),
                (KIDS, "into_iter") if h.t & OWN != 0 && matches!(a[0], Val::G(_)) => return one(st.clone(), g(KITER | OWN, id, 0, 0)),
                (KIDS, "into_iter" | "iter") if x == SELF => return one(st.clone(), g(VITER, id, 0, 0)),
                (KIDS, "deref" | "deref_mut" | "as_slice" | "as_ref" | "borrow") => return one(st.clone(), a[0].clone()),
                (KIDS, "len") if x == SELF => {
                    let mut s = st.clone();
                    if let Some(Obj::C(n)) = s.mem.get_mut(&id) {
                        if n.pos == 0 {
                            n.counted = true;
                        }
                    }
                    return one(s, g(LEN, id, 0, 0));
                }
                (KIDS, "is_empty") if x == SELF => return B::Outs(self.asks(st, Q::Len(id, 1)).into_iter().map(|(s, r)| (s, b1(r))).collect()),
                (KIDS, "first" | "last" | "get" | "index") => {
                    let index = last == "index";
                    let last = last == "last";
                    if (index || c.decl.ends_with("get")) && !matches!(a.get(1), Some(Val::Int(0))) || x >= AT || (x == FIRST && last) || (x == LAST && !last) {
                        return B::Unknown(format!("{} looks at the children of a tree", site.func));
                    }
                    let Some(n) = sset(st, id) else { return B::Outs(vec![]) };
                    let side = if last { LAST } else { FIRST };
                    let mut out = vec![];
                    let mut states = vec![st.clone()];
                    if x == SELF && n.root && n.pos == 0 && n.lens & 1 == 1 {
                        states = vec![];
                        for (s, empty) in self.asks(st, Q::Len(id, 1)) {
                            if empty && index {
                                self.bad(&["C04"], "panic", site, format!("{} takes the first child of a tree that may have none", site.func));
                            } else if empty {
                                out.push((s, none()))
                            } else {
                                states.push(s)
                            }
                        }
                    }
                    for s in states {
                        let n = s.node(id).clone();
                        let (mut tok, mut tree) = (0u128, 0u128);
                        if x == SELF && !last {
                            let a = &self.gr.nfa[&n.kind];
                            for (q, m) in self.follow(&n, 0, 0).0 {
                                let same: u128 = (0..a.pos.len()).filter(|i| a.rep[*i] == q as usize).fold(0, |x, i| x | 1 << i);
                                if m.is_some() { tok |= same } else { tree |= 1 << q }
                            }
                        } else if x == SELF {
                            let a = &self.gr.nfa[&n.kind];
                            for q in (1..a.pos.len()).filter(|q| a.accept[*q]) {
                                if p_is_tok(self, n.kind, q as u8) { tok = !0 } else { tree = !0 }
                            }
                        } else {
                            tok = !0;
                            tree = !0;
                        }
                        for (m, is_tok) in [(tok, true), (tree, false)] {
                            if m == 0 {
                                continue;
                            }
                            let mut s2 = s.clone();
                            if x == SELF && !last {
                                s2.node_mut(id).next &= m;
                            }
                            let v = if is_tok { agg(self.ch[0], vec![self.token(id, side, false)]) } else { agg(self.ch[1], vec![self.tree(id, side, false)]) };
                            out.push((s2, if index { refk(v) } else { some(refk(v)) }));
                        }
                    }
                    return B::Outs(out);
                }
                (KITER, "into_iter" | "by_ref") => return one(st.clone(), a[0].clone()),
                (KITER, "next") => return B::Outs(self.take(st, id)),
                (VITER, "into_iter") => return one(st.clone(), v0.clone()),
                (VITER, "next") => {
                    let Some(p) = st.last_ptr(&a[0]) else { return B::No };
                    let Some(n) = sset(st, id) else { return B::No };
                    if n.pos != 0 {
                        return B::Unknown(format!("{} looks at a tree that is being printed", site.func));
                    }
                    let seen = h.y as u8;
                    let (next, end) = self.follow(&n, x as u8, seen);
                    let mut out = vec![];
                    for (q, toks) in next {
                        let mut s = st.clone();
                        let mut y = seen;
                        let v = match toks {
                            Some(m) => {
                                for t in 0..128u8 {
                                    if m >> t & 1 == 1 {
                                        y |= self.bracket(t);
                                    }
                                }
                                agg(self.ch[0], vec![self.token(id, AT + q as i32, false)])
                            }
                            None => {
                                let Some(Pos { sym: Sym::K(k), .. }) = &self.gr.nfa[&n.kind].pos[q as usize] else { continue };
                                let mut f = vec![Val::Any; 2];
                                f[self.ti[0] as usize] = Val::Int(*k as i128);
                                f[self.ti[1] as usize] = g(KIDS, id, AT + q as i32, 0);
                                agg(self.ch[1], vec![agg(0, f)])
                            }
                        };
                        if s.g.scan.on {
                            let c = &mut s.g.scan;
                            c.missed |= c.pend;
                            c.pend = false;
                            c.at = q;
                            if let (None, Some(Pos { sym: Sym::K(k), .. })) = (toks, &self.gr.nfa[&n.kind].pos[q as usize]) {
                                c.found |= *k == c.k;
                                c.pend = *k != c.k && self.gr.inside[k] >> c.k & 1 == 1;
                            }
                        }
                        s.node_mut(id).seen_y |= y;
                        s.write_ptr(&p, g(VITER, id, q as i32, y as i32));
                        out.push((s, some(refk(v))));
                    }
                    if end {
                        let mut s = st.clone();
                        s.node_mut(id).seen_n |= 63 & !seen;
                        if s.g.scan.on {
                            s.g.scan.missed |= s.g.scan.pend;
                            s.g.scan.pend = false;
                            s.g.scan.at = 255;
                        }
                        out.push((s, none()));
                    }
                    return B::Outs(out);
                }
                (KITER | VITER | SITER, "size_hint") => return one(st.clone(), Val::Top),
                (TEXT, "clone" | "to_string" | "to_owned" | "into" | "from" | "deref" | "as_ref" | "borrow" | "as_str" | "into_string" | "as_mut") => return one(st.clone(), v0.clone()),
                (TEXT, "len" | "is_empty" | "starts_with" | "ends_with" | "contains" | "eq" | "ne" | "lines" | "count" | "find" | "chars" | "bytes") => return one(st.clone(), Val::Any),
                (TEXT, "fmt" | "new_display" | "new_debug") => (),
                (TEXT, "push" | "push_str" | "insert" | "insert_str" | "truncate" | "clear" | "pop" | "remove" | "retain" | "extend" | "make_ascii_lowercase" | "make_ascii_uppercase" | "drain") => {
                    let mut s = st.clone();
                    if let Some(p) = st.last_ptr(&a[0]) {
                        s.write_ptr(&p, agg(ALTERED, vec![v0.clone()]));
                    }
                    return one(s, Val::Any);
                }
                (TEXT, _) => return one(st.clone(), agg(ALTERED, vec![v0.clone()])),
                (KIDS | KITER, _) if !matches!(last, "peekable" | "enumerate" | "fmt" | "map" | "rev" | "zip" | "skip" | "chain" | "for_each" | "fold" | "filter" | "by_ref" | "count" | "any" | "all" | "find" | "nth" | "try_fold" | "position") => {
                    if selfty.contains("Child") || selfty.contains("IntoIter") {
                        return B::Unknown(format!("{} does {last} with the children of a tree", site.func));
                    }
                }
                _ => (),
            }
        }
        B::No
    }
    fn bin(&mut self, _ir: &Ir, op: &str, x: &Val, y: &Val, st: S<'g>, ovf: bool, _site: &Site) -> Outs<Self> {
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        let line = |v: &Val| match v {
            Val::G(h) if h.t == LINE => Some(*h),
            Val::Int(1) => Some(G { t: LINE, id: 0, x: 0, y: 1 }),
            _ => None,
        };
        let fin = |v: Val, o: Val| if ovf { agg(0, vec![v, o]) } else { v };
        let isl = |v: &Val| matches!(v, Val::G(G { t: LINE, .. }));
        if base == "Add" || base == "Sub" {
            match (x, y) {
                (Val::G(h), Val::Int(k)) if h.t == IDX || h.t == MLEN => {
                    let y = h.y + *k as i32 * if base == "Sub" { -1 } else { 1 };
                    if k.abs() > 8 || y.abs() > 8 {
                        return vec![(st, fin(Val::Top, Val::Top))];
                    }
                    let o = match (h.t, y >= 0 || base == "Add", self.markers(&st)) {
                        (_, true, _) => Val::Int(0),
                        (MLEN, _, (n, exact)) if exact || n + y as i128 >= 0 => b1(n + (y as i128) < 0),
                        _ => Val::Top,
                    };
                    return vec![(st, fin(Val::G(G { y, ..*h }), o))];
                }
                (Val::Int(k), Val::G(h)) if (h.t == IDX || h.t == MLEN) && base == "Add" && *k >= 0 && *k < 8 => return vec![(st, fin(Val::G(G { y: h.y + *k as i32, ..*h }), Val::Int(0)))],
                (Val::G(h), Val::Int(k)) if h.t == LINE => {
                    if base == "Sub" && *k == 1 && st.g.last == 0 {
                        // lines from the start of the file
                    } else {
                        let k = *k as i32 * if base == "Sub" { -1 } else { 1 };
                        if k.abs() > 4 || (h.y >> 1).abs() > 8 {
                            return vec![(st, fin(Val::Top, Val::Int(0)))];
                        }
                        return vec![(st, fin(Val::G(G { y: h.y + 2 * k, ..*h }), Val::Int(0)))];
                    }
                }
                (Val::Int(k), Val::G(h)) if h.t == LINE && base == "Add" && k.abs() < 4 => return vec![(st, fin(Val::G(G { y: h.y + 2 * *k as i32, ..*h }), Val::Int(0)))],
                _ => (),
            }
            if let (Some(p), Some(q), "Sub") = (line(x), line(y), base) {
                let Some((slot, later)) = self.dist(&st, &p, &q) else { return vec![(st, fin(Val::Top, Val::Top))] };
                let off = ((p.y >> 1) - (q.y >> 1)) as i128 + self.past(&st, slot, later) as i128;
                let cur = self.slot(&st, slot);
                let mut out = vec![];
                for c in 0..3i128 {
                    if cur >> c & 1 == 1 {
                        let s = self.put(&st, slot, 1 << c);
                        let d = if later { c } else { -c } + off;
                        let bad = d < 0;
                        let v = if bad { Val::Top } else if c == 2 { g(GE, 0, d as i32, 0) } else { Val::Int(d) };
                        out.push((s, fin(v, b1(bad))));
                    }
                }
                return out;
            }
            return vec![(st, fin(Val::Top, Val::Int(0)))];
        }
        if isl(x) || isl(y) {
            if let (Some(p), Some(q)) = (line(x), line(y)) {
                return self.cmp(&st, base, &p, &q);
            }
            return vec![(st, Val::Top)];
        }
        let flip = |o: &str| match o {
            "Lt" => "Gt",
            "Gt" => "Lt",
            "Le" => "Ge",
            "Ge" => "Le",
            _ => return o.to_string(),
        }
        .to_string();
        let (h, k, o) = match (x, y) {
            (Val::G(h), Val::Int(k)) => (*h, *k, base.to_string()),
            (Val::Int(k), Val::G(h)) => (*h, *k, flip(base)),
            (Val::G(p), Val::G(q)) if p.t == TKIND && q.t == TKIND => {
                if p == q {
                    return vec![(st, b1(base == "Eq"))];
                }
                let (Some(a), Some(b)) = (self.kset(&st, p), self.kset(&st, q)) else { return vec![(st, Val::Top)] };
                let mut out = vec![];
                for t in 0..128u8 {
                    if a >> t & 1 == 1 {
                        if let (Some(s), _) = self.ksplit(&st, p, 1 << t) {
                            let (y, n) = self.ksplit(&s, q, 1 << t);
                            let _ = b;
                            out.extend(y.map(|s| (s, b1(base == "Eq"))));
                            out.extend(n.map(|s| (s, b1(base != "Eq"))));
                        }
                    }
                }
                return out;
            }
            (Val::G(p), Val::G(q)) if p.t == IDX && q.t == IDX => {
                let is_c = |h: &G| st.node_opt(h.id).is_some_and(|n| n.t == 3);
                // p - q, from ... to ...
                let far = 1000i128;
                let d = (p.y - q.y) as i128;
                let (from, to) = match (is_c(p), is_c(q)) {
                    _ if (p.id, p.x) == (q.id, q.x) => (d, d),
                    (true, false) => match self.before(&st, p.id, q) {
                        Val::Int(1) => (-far, d - 1),
                        Val::Int(_) => (d + 1, far),
                        _ => (-far, far),
                    },
                    (false, true) => match self.before(&st, q.id, p) {
                        Val::Int(1) => (d + 1, far),
                        Val::Int(_) => (-far, d - 1),
                        _ => (-far, far),
                    },
                    _ => (-far, far),
                };
                let never = from > 0 || to < 0;
                let v = match base {
                    "Eq" | "Ne" if never => b1(base == "Ne"),
                    "Eq" | "Ne" if from == 0 && to == 0 => b1(base == "Eq"),
                    "Lt" if to < 0 => b1(true),
                    "Lt" if from >= 0 => b1(false),
                    "Le" if to <= 0 => b1(true),
                    "Le" if from > 0 => b1(false),
                    "Gt" if from > 0 => b1(true),
                    "Gt" if to <= 0 => b1(false),
                    "Ge" if from >= 0 => b1(true),
                    "Ge" if to < 0 => b1(false),
                    _ => Val::Top,
                };
                return vec![(st, v)];
            }
            _ => return vec![(st, fin(Val::Top, Val::Int(0)))],
        };
        let k = if h.t == IDX || h.t == MLEN { k - h.y as i128 } else { k };
        let test = |d: i128| match o.as_str() {
            "Lt" => d < k,
            "Le" => d <= k,
            "Gt" => d > k,
            "Ge" => d >= k,
            "Eq" => d == k,
            _ => d != k,
        };
        match h.t {
            TKIND if base == "Eq" || base == "Ne" => {
                let (y, n) = self.ksplit(&st, &h, if (0..128).contains(&k) { 1 << k } else { 0 });
                y.map(|s| (s, b1(base == "Eq"))).into_iter().chain(n.map(|s| (s, b1(base == "Ne")))).collect()
            }
            LEN => {
                let m = (0..9u16).filter(|i| test(*i as i128)).fold(0u16, |m, i| m | 1 << i);
                // eight stands for more, too
                self.asks(&st, Q::Len(h.id, m)).into_iter().map(|(s, r)| (s, b1(r))).collect()
            }
            MLEN => {
                let (n, exact) = self.markers(&st);
                let v = test(n);
                vec![(st, if exact || (n..n + 40).all(|i| test(i) == v) && test(100000) == v { b1(v) } else { Val::Top })]
            }
            IDX => {
                // the first token has nothing before it
                let f = front(&st.g) == Some(h.id) && (h.x == FIRST || h.x == SELF);
                if f && st.g.last == 0 {
                    let (a, z) = (test(1), test(1000));
                    let v = if st.g.cm.n > 0 || st.g.cm.know > 0 { vec![(st, None)] } else { self.head(&st) };
                    return v.into_iter().map(|(s, _)| if s.g.cm.n == 0 { (s, b1(test(0))) } else if a == z { (s, b1(a)) } else { (s, Val::Top) }).collect();
                }
                if f || st.g.last != 0 {
                    let (a, z) = (test(1), test(1000));
                    return if a == z { vec![(st, b1(a))] } else { vec![(st, Val::Top)] };
                }
                vec![(st, Val::Top)]
            }
            _ => vec![(st, fin(Val::Top, Val::Int(0)))],
        }
    }
    fn switch(&mut self, _ir: &Ir, gv: &G, t: &[i128], st: &S<'g>) -> Option<Vec<(S<'g>, usize)>> {
        let mut out = vec![];
        match gv.t {
            GE => {
                for (i, k) in t.iter().enumerate() {
                    if *k >= gv.x as i128 {
                        out.push((st.clone(), i));
                    }
                }
                out.push((st.clone(), t.len()));
            }
            TKIND => {
                let all = self.kset(st, gv)?;
                let mut rest = all;
                for (i, k) in t.iter().enumerate() {
                    let m = if (0..128).contains(k) { 1u128 << *k } else { 0 };
                    if rest & m != 0 {
                        if let (Some(s), _) = self.ksplit(st, gv, m) {
                            out.push((s, i));
                        }
                        rest &= !m;
                    }
                }
                if rest != 0 {
                    if let (Some(s), _) = self.ksplit(st, gv, rest) {
                        out.push((s, t.len()));
                    }
                }
            }
            LEN => {
                let mut cur = vec![st.clone()];
                for (i, k) in t.iter().enumerate() {
                    let mut next = vec![];
                    for s in cur {
                        for (s2, y) in self.asks(&s, Q::Len(gv.id, if (0..8).contains(k) { 1 << *k } else { 0 })) {
                            if y { out.push((s2, i)) } else { next.push(s2) }
                        }
                    }
                    cur = next;
                }
                out.extend(cur.into_iter().map(|s| (s, t.len())));
            }
            _ => return Some((0..=t.len()).map(|i| (st.clone(), i)).collect()),
        }
        Some(out)
    }
    fn meta(&mut self, gv: &G, _st: &S<'g>) -> Option<Val> {
        (gv.t & !OWN == KIDS && gv.x == SELF).then(|| g(LEN, gv.id, 0, 0))
    }
    fn norm(&mut self, gv: &G, st: &S<'g>) -> Option<Val> {
        match gv.t {
            NKIND => Some(Val::Int(st.node_opt(gv.id)?.kind as i128)),
            _ => None,
        }
    }
    fn gc(&mut self, st: &mut S<'g>, owned: &HashSet<Id>, reach: &HashSet<Id>, site: &Site) {
        let order = std::mem::take(&mut st.g.order);
        let mut new = vec![];
        for (id, own) in order {
            if id <= 9 {
                new.push((id, own));
            } else if own && !owned.contains(&id) {
                let n = st.node(id).clone();
                if n.t == 0 {
                    self.bad(&["C01"], "lost", site, format!("{} is never printed", names(&self.gr.toks, n.kinds)));
                } else {
                    let (next, _) = self.follow(&n, n.pos, 0);
                    if !next.is_empty() {
                        let what = if n.pos == 0 { String::new() } else { "the rest of ".into() };
                        self.bad(&["C01"], "lost", site, format!("{what}{} is never printed", self.gr.kinds[n.kind as usize]));
                    }
                }
            } else if !own && !reach.contains(&id) {
                new.push((DEADB, false));
            } else {
                new.push((id, own));
            }
        }
        st.g.order = new;
        let lost = st.mem.iter().any(|(i, o)| matches!(o, Obj::C(n) if n.t == 3 && n.cnt == 9 && !n.emitted && !reach.contains(i)));
        if lost {
            self.bad(&["C03"], "comment", site, "a comment is taken from the list and not printed".into());
        }
    }
    fn before_call(&mut self, ir: &Ir, f: usize, st: &mut S<'g>) {
        if ir.fns[f].krate != "mofmt" {
            return;
        }
        let front = if self.style { None } else { front(&st.g) };
        for i in [Some(st.g.last), front].into_iter().flatten() {
            let Some(Obj::C(n)) = st.mem.get_mut(&i) else { continue };
            if n.t != 0 {
                continue;
            }
            for c in &self.classes {
                let c = c & !self.special;
                if n.kinds & !c == 0 && n.kinds != c {
                    n.kinds = c;
                    n.wide = true;
                }
            }
        }
    }
    fn enter(&mut self, _ir: &Ir, _f: usize, st: &S<'g>, map: &HashMap<Id, Id>, owned: &HashSet<Id>) -> H {
        let mut h = st.g.clone();
        h.order = template(&st.g.order, &|i| map.contains_key(&i), &|i| owned.contains(&i)).into_iter().map(|(i, o)| (map.get(&i).cloned().unwrap_or(i), o)).collect();
        h.last = map.get(&st.g.last).cloned().unwrap_or(0);
        h.cms.iter_mut().for_each(|c| *c = map.get(c).cloned().unwrap_or(0));
        h.chead = map.get(&st.g.chead).cloned().unwrap_or(0);
        h.delta = 0;
        h.low = 0;
        h
    }
    fn after_call(&mut self, _ir: &Ir, _f: usize, st: S<'g>, _site: &Site) -> Vec<S<'g>> {
        if st.g.delta.abs() > 8 { vec![] } else { vec![st] }
    }
    fn at_exit(&mut self, ir: &Ir, f: usize, st: &mut S<'g>) {
        let h = &mut st.g;
        if h.cm.know == 2 && front(h).is_some() {
            h.cm.know = 1;
        }
        if ir.fns[f].krate == "mofmt" && ir.types[ir.fns[f].locals[0]].s == "()" && h.cms.is_empty() && h.cm.n > 0 && (h.cm.know > 0 || h.cm.n >= self.row) {
            // all comments before the next token are printed; what is known of their lines is of no more use
            h.cm.n = self.row;
            h.cm.know = 1;
            h.cm.off = 0;
            h.cm.line = false;
            // where lines are still judged
            if !h.tail.iter().any(|m| *m >= S_BR && *m <= S_BL) {
                h.gapd = 7;
            } else if h.gapd != 4 {
                h.gapd = if h.gapd & 4 != 0 { 7 } else { 3 };
            }
        }
    }
    fn suspend(&mut self, st: &mut S<'g>, owned: &HashSet<Id>) {
        self.stale(st);
        st.g.lent = st.g.order.iter().filter(|o| o.1 && owned.contains(&o.0)).map(|o| o.0).collect();
    }
    fn leave(&mut self, _ir: &Ir, _f: usize, st: &mut S<'g>, exit: H, shared: &HashSet<Id>, site: &Site) {
        let old = std::mem::replace(&mut st.g, exit);
        let d = st.g.delta;
        if d != 0 {
            for (i, o) in st.mem.iter_mut() {
                if let Obj::C(n) = o {
                    if !shared.contains(i) && n.ev {
                        n.lvl -= d;
                        n.rl -= d;
                    }
                }
            }
        }
        st.g.low = old.low.min(old.delta + st.g.low);
        st.g.delta = old.delta + d;
        if st.g.delta.abs() > 8 {
            self.bad(&["C05"], "balance", site, "indentation can grow without bound".into());
        }
        // put the pieces the callee did not see back in their places
        let out = std::mem::take(&mut st.g.order);
        let mut segs: Vec<Vec<(Id, bool)>> = vec![vec![]];
        let mut seps: Vec<Id> = vec![];
        for (i, o) in out {
            if o && i > 9 {
                segs.last_mut().unwrap().push((i, true));
            } else {
                seps.push(i);
                segs.push(vec![]);
            }
        }
        let mut new = vec![];
        let (mut k, mut in_run) = (0, false);
        let mut seg_done = vec![false; segs.len()];
        let mut put_seg = |new: &mut Vec<(Id, bool)>, k: usize, segs: &Vec<Vec<(Id, bool)>>| {
            if k < segs.len() && !seg_done[k] {
                seg_done[k] = true;
                new.extend(segs[k].iter().cloned());
            }
        };
        for (i, own) in &old.order {
            // an entry the callee owned is a segment entry; others are separators
            let mapped = *i > 9 && shared.contains(i);
            if *i == GONE {
                new.push((*i, *own));
                continue;
            }
            let seg = mapped && *own && old.lent.contains(i);
            if seg {
                in_run = false;
                continue;
            }
            if mapped {
                put_seg(&mut new, k, &segs);
                let s = seps.get(k).cloned().unwrap_or(*i);
                k += 1;
                if s != GONE {
                    new.push((*i, *own));
                }
                in_run = false;
            } else {
                if !in_run {
                    put_seg(&mut new, k, &segs);
                    k += 1;
                    in_run = true;
                }
                new.push((*i, *own));
            }
        }
        put_seg(&mut new, k, &segs);
        st.g.order = new;
    }
    fn root_exit(&mut self, _ir: &Ir, st: &S<'g>, site: &Site) {
        if st.taint {
            return;
        }
        self.obligations += 1;
        let c = &st.g.scan;
        if c.on {
            let (k, p) = (self.gr.kinds[c.k as usize].as_str(), self.gr.kinds[self.root as usize].as_str());
            // what may still come
            let rest = !self.ended(st) && self.rest_holds(self.root, c.at, c.k);
            match st.read_at(0, &[]) {
                Val::Int(1) if !c.found => self.bad(&["C17"], "search", site, format!("{k} is found in a {p} without one")),
                Val::Int(0) if c.found => self.bad(&["C17"], "search", site, format!("{k} is not found in a {p}, though one of its children is one or holds one")),
                Val::Int(0) if c.missed || c.pend || rest => self.bad(&["C17"], "search", site, format!("{k} is not found in a {p}, though not all of it was searched")),
                Val::Int(_) => (),
                _ => self.rep.und.insert(format!("result of {}", site.func)).then_some(()).unwrap_or(()),
            }
            return;
        }
        if st.g.cm.know < 2 && st.g.cm.n < self.row || !st.g.cms.is_empty() {
            self.bad(&["C03"], "comment", site, "comments after the last token are not printed".into());
        }
        for (i, _) in &st.g.order {
            if *i > 9 {
                self.bad(&["C01"], "lost", site, "a part of the tree is never printed".into());
            }
        }
        if st.g.tail.iter().any(|m| *m <= S_BL) {
            self.bad(&["C21"], "trailing", site, "white space is printed after the last token".into());
        }
        let k = self.gr.kinds[self.root as usize].as_str();
        let part = matches!(k, "SimpleExpression" | "LogicalExpression" | "LogicalTerm" | "LogicalFactor" | "Relation" | "ArithmeticExpression" | "Term" | "Factor" | "Primary" | "OutputExpressionList");
        if st.g.delta != 0 && !(part && st.g.delta == 1) {
            self.bad(&["C05"], "balance", site, format!("after {k} the indentation is {} by {}", if st.g.delta > 0 { "still increased" } else { "decreased" }, st.g.delta.abs()));
        }
        if st.g.low < 0 {
            self.bad(&["C05", "C04"], "margin", site, format!("in {k} the indentation goes below the margin"));
        }
        if !matches!(st.read_at(0, &[]), Val::G(G { t: SINK, .. })) {
            self.rep.und.insert("result of the formatter".into());
        }
    }
    fn panic(&mut self, _ir: &Ir, what: &str, st: &S<'g>, site: &Site) {
        self.obligations += 1;
        let _ = st;
        self.bad(&["C04"], "panic", site, format!("formatting can panic: {what}"));
    }
}
/// the pieces as the callee sees them
fn template(order: &[(Id, bool)], mapped: &dyn Fn(Id) -> bool, owned: &dyn Fn(Id) -> bool) -> Vec<(Id, bool)> {
    let mut v: Vec<(Id, bool)> = vec![];
    for (i, own) in order {
        if *i == GONE {
            continue;
        }
        if *i > 9 && mapped(*i) {
            v.push((*i, *own && owned(*i)));
        } else if v.last() != Some(&(FOREIGN, false)) {
            v.push((FOREIGN, false));
        }
    }
    v
}

fn reach_tables(gr: &Gram, brackets: &[u8]) -> (BTreeMap<u8, Vec<u16>>, BTreeMap<u8, Vec<u8>>) {
    let (mut rem, mut rt) = (BTreeMap::new(), BTreeMap::new());
    for (k, a) in &gr.nfa {
        let n = a.pos.len();
        let (mut r, mut t) = (vec![0u16; n], vec![0u8; n]);
        loop {
            let mut more = false;
            for q in 0..n {
                let mut x = if a.accept[q] { 1u16 } else { 0 };
                let mut y = match &a.pos[q] {
                    Some(Pos { sym: Sym::T(c), .. }) => brackets.iter().position(|b| b == c).map(|i| 1u8 << i).unwrap_or(0),
                    _ => 0,
                };
                for f in &a.follow[q] {
                    let z = r[*f];
                    x |= (z << 1 & 0x1ff) | (z & 0x100);
                    y |= t[*f];
                }
                if x | r[q] != r[q] || y | t[q] != t[q] {
                    r[q] |= x;
                    t[q] |= y;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        rem.insert(*k, r);
        rt.insert(*k, t);
    }
    (rem, rt)
}
pub fn run(ir: &Ir, gr: &Gram) -> serde_json::Value {
    let ty = |n: &str| ir.adt(n);
    let var = |t: Option<usize>, n: &str| t.and_then(|t| ir.types[t].v.iter().position(|v| v.name == n)).map(|i| i as u32);
    let marker = ir.fns.iter().filter(|f| f.krate == "mofmt").find_map(|f| {
        let s = &ir.types[f.locals[0]].s;
        let t = ty("Marker")?;
        s.contains(&ir.types[t].s).then_some(t)
    });
    let (tokty, posty, treety, childty) = (ty("Token"), ty("Position"), ty("Tree"), ty("Child"));
    let fld = |t: Option<usize>, n: &str| t.and_then(|t| ir.field(t, n)).unwrap_or(99) as u32;
    let brackets: Vec<u8> = ["LParen", "RParen", "LCurly", "RCurly", "LBracket", "RBracket"].iter().filter_map(|n| gr.tidx.get(*n).cloned()).collect();
    let special = ["Comma", "Semicolon", "LParen", "LCurly", "LBracket", "External", "EOF", "RCurly", "Equal", "In", "Else", "Then", "Extends", "Import", "Within", "Final", "End", "RParen", "Assign", "Break", "Initial", "Equation", "Algorithm"].iter().filter_map(|n| gr.tidx.get(*n)).fold(0u128, |m, t| m | 1 << t);
    let (mut words, mut ops, mut closers) = (0u128, 0u128, 0u128);
    for (i, t) in gr.toks.iter().enumerate() {
        let m = 1u128 << i;
        match (t.as_str(), text_of(t)) {
            ("Dot" | "String" | "UInt" | "UReal" | "LineComment" | "BlockComment" | "ErrorToken" | "EOF", _) => (),
            ("RParen" | "RCurly" | "RBracket", _) => closers |= m,
            (_, Some(_)) => ops |= m,
            _ => words |= m,
        }
    }
    let classes = vec![words, ops, closers];
    let (rem, reacht) = reach_tables(gr, &brackets);
    let mk = ["Token", "Indent", "Dedent", "Space", "Blank", "Break"].map(|n| var(marker, n));
    let ch = ["Token", "Tree"].map(|n| var(childty, n));
    let fi = ["idx", "text", "kind", "start", "end"].map(|n| fld(tokty, n));
    let pi = ["pos", "line", "col"].map(|n| fld(posty, n));
    let ti = ["kind", "children"].map(|n| fld(treety, n));
    let known = mk.iter().chain(ch.iter()).all(|x| x.is_some()) && fi.iter().chain(&pi).chain(&ti).all(|x| *x != 99);
    let make = |special: u128, searchers: &BTreeSet<usize>, row: u8, style: bool| Fmt {
        row,
        style,
        gr,
        rep: Report::default(),
        obligations: 0,
        judged: BTreeSet::new(),
        emits: BTreeSet::new(),
        unjudged: 0,
        root: 0,
        markty: marker.unwrap_or(0),
        tokty: tokty.unwrap_or(0),
        posty: posty.unwrap_or(0),
        treety: treety.unwrap_or(0),
        mk: mk.map(|x| x.unwrap_or(99)),
        ch: ch.map(|x| x.unwrap_or(99)),
        fi,
        pi,
        ti,
        rem: rem.clone(),
        reacht: reacht.clone(),
        brackets: brackets.clone(),
        special,
        classes: classes.clone(),
        asked: std::cell::Cell::new(0),
        searchers: searchers.clone(),
    };
    let mut e = Eng::new(ir, make(special, &BTreeSet::new(), 0, true));
    e.cap = 4;
    // functions that tell whether a tree holds a kind
    let mut searchers = BTreeSet::new();
    let mut found = BTreeMap::new();
    let mut unsure = BTreeMap::new();
    let mut searches = 0;
    let kindty = ty("SyntaxKind");
    for (i, f) in ir.fns.iter().enumerate() {
        let tree = |t: usize| ir.types[t].k == "ref" && ir.types[t].e.is_some() && ir.types[t].e == treety;
        if !known || f.krate != "mofmt" || f.args != 2 || ir.types[f.locals[0]].s != "bool" || !tree(f.locals[1]) || Some(f.locals[2]) != kindty {
            continue;
        }
        let mut e = Eng::new(ir, make(special, &BTreeSet::from([i]), 0, true));
        e.cap = 4;
        for p in gr.nfa.keys() {
            for k in ["DescriptionString", "AnnotationClause", "ConstrainingClause", "Description", "Expression", "Name"] {
                let (Some(k), false) = (gr.kidx.get(k), gr.kinds[*p as usize] == "Error") else { continue };
                let mut st: S = State::new();
                let mut n = e.c.new_node(*p);
                n.root = true;
                let id = st.alloc(Obj::C(n));
                let t = e.c.tree(id, SELF, false);
                st.mem.insert(1, Obj::V(refk(t)));
                st.mem.insert(2, Obj::V(Val::Int(*k as i128)));
                st.g.scan = Scan { on: true, k: *k, ..Scan::default() };
                e.c.root = *p;
                e.run(vec![(i, st)]);
            }
        }
        for u in &e.c.rep.und {
            e.undecided.insert(u.clone(), 1);
        }
        for (f, n) in &e.cut {
            e.undecided.insert(format!("paths of {f} that depend on an unknown value"), *n);
        }
        if e.debug {
            eprintln!("SEARCH {} {} findings, undecided {:?}, {} ends", f.path, e.c.rep.finds.len(), e.undecided, e.c.obligations);
        }
        // it may answer another question about trees
        if f.full.ends_with("::contains") || e.c.rep.finds.is_empty() && e.undecided.is_empty() {
            searchers.insert(i);
            found.extend(std::mem::take(&mut e.c.rep.finds));
            unsure.extend(e.undecided.clone());
            searches += e.c.obligations;
        }
    }
    let mut stats = vec![];
    let mut local: BTreeSet<String> = BTreeSet::new();
    let all_special = special;
    // comments that may follow each other without a token between them
    let most: u8 = std::env::var("ENGINE_ROW").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let style = true;
    let passes: Vec<(u8, usize)> = if most > 1 { vec![(most, 1), (1, 2)] } else { vec![(1, 3)] };
    let mut special = all_special;
    for (row, files) in passes {
    loop {
    e = Eng::new(ir, make(special, &searchers, row, style));
    e.cap = 4;
    // the function that turns a tree and comments into markers
    let vecof = |t: usize, el: Option<usize>| el.is_some_and(|el| ir.types[t].s.contains("Vec<") && ir.types[t].s.contains(&ir.types[el].s));
    let entry = ir.fns.iter().position(|f| f.krate == "mofmt" && f.args == 2 && vecof(f.locals[0], marker) && Some(f.locals[1]) == treety && vecof(f.locals[2], tokty));
    match entry {
        Some(r) if known => {
            let only = std::env::var("ENGINE_KIND").ok();
            // whole files first: the style sheet is about them; any other entry must still neither panic nor lose anything
            let mut kinds: Vec<_> = gr.nfa.keys().collect();
            kinds.sort_by_key(|k| gr.kinds[**k as usize] != "StoredDefinition");
            let mut whole: BTreeSet<String> = found.keys().cloned().collect();
            for k in kinds {
                let name = gr.kinds[*k as usize].as_str();
                let file = name == "StoredDefinition";
                if name == "Error" || files & (if file { 1 } else { 2 }) == 0 || only.as_ref().is_some_and(|o| o != name) {
                    continue;
                }
                let mut st: S = State::new();
                let mut n = e.c.new_node(*k);
                n.root = true;
                n.ev = style;
                n.q = START;
                if matches!(name, "Expression" | "SimpleExpression" | "LogicalExpression" | "LogicalTerm" | "LogicalFactor" | "Relation" | "ArithmeticExpression" | "Term" | "Factor" | "Primary" | "OutputExpressionList") {
                    n.grp = st.alloc(Obj::C(Nd { t: 2, ..Nd::default() }));
                }
                let id = st.alloc(Obj::C(n));
                st.mem.insert(1, Obj::V(e.c.tree(id, SELF, true)));
                st.mem.insert(2, Obj::V(g(CITER, 0, 0, 0)));
                st.g.order = vec![(id, true)];
                st.g.gapd = 7;
                e.c.root = *k;
                e.run(vec![(r, st)]);
                if file {
                    whole.extend(e.c.rep.finds.keys().cloned());
                }
            }
            e.c.rep.finds.retain(|k, f| {
                if !whole.contains(k) {
                    f.props.retain(|p| p == "C01" || p == "C03" || p == "C04");
                }
                !f.props.is_empty()
            });
        }
        _ => e.undecide("no function that turns a tree and comments into markers".into()),
    }
    let more = e.c.asked.get() & !special;
    if more == 0 || !e.undecided.is_empty() && std::env::var("ENGINE_DEBUG").is_ok() && false {
        break;
    }
    if e.debug {
        eprintln!("ROUND steps {} nodes {} sums {}", e.steps, e.nodes.len(), e.sums.len());
        eprintln!("ASKED {:?}", (0..gr.toks.len()).filter(|i| more >> i & 1 == 1).map(|i| gr.toks[i].as_str()).collect::<Vec<_>>());
    }
    special |= more;
    }
    if e.debug {
        e.profile();
        for f in e.c.rep.finds.values().take(6) {
            if std::env::var("ENGINE_ENTRY").is_ok() {
                let mut i = f.sum;
                for _ in 0..4 {
                    eprintln!("AT {} {:?} {:?}", ir.fns[e.sums[i].f].path, e.sums[i].entry.mem, e.sums[i].entry.g);
                    match &e.sums[i].caller {
                        Some(c) => i = c.0,
                        None => break,
                    }
                }
            }
            eprintln!("CHAIN {} {}: {:?}", f.rule, f.msg, e.callers(f.sum).iter().take(5).map(|c| c.rsplit("::").next().unwrap().to_string()).collect::<Vec<_>>());
        }
        eprintln!("judged {} unjudged {}", e.c.judged.len(), e.c.unjudged);
        if let Ok(n) = std::env::var("ENGINE_SHOW") {
            e.show_entries(&n, 20);
        }
    }
    local.extend(e.sums.iter().map(|s| &ir.fns[s.f]).filter(|f| f.krate == "mofmt").map(|f| f.path.clone()));
    for (f, n) in &e.cut {
        unsure.insert(format!("paths of {f} that depend on an unknown value"), *n);
    }
    for u in &e.c.rep.und {
        unsure.insert(u.clone(), 1);
    }
    unsure.extend(e.undecided.clone());
    for (k, f) in std::mem::take(&mut e.c.rep.finds) {
        found.entry(k).or_insert(f);
    }
    let entries = ["", "files", "other productions", "all productions"][files];
    stats.push(serde_json::json!({"comments_in_a_row": row, "entries": entries, "summaries": e.sums.len(), "blocks": e.blocks_seen.len(), "call_edges": e.calls.len(), "steps": e.steps,
        "obligations": e.c.obligations, "emit_sites": e.c.emits.len(), "pairs_of_neighbours": e.c.judged.len(), "control_points": e.nodes.len()}));
    }
    e.c.rep.finds = found;
    let sum = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let max = |k: &str| stats.iter().map(|s| s[k].as_u64().unwrap_or(0)).max();
    let all = ["summaries", "steps", "obligations", "control_points"].map(sum);
    serde_json::json!({
        "client": "fmt",
        "findings": e.c.rep.json(),
        "undecided": unsure,
        "stats": {"functions": local.len(), "summaries": all[0], "blocks": max("blocks"), "call_edges": max("call_edges"), "steps": all[1],
            "obligations": all[2], "searches": searches, "emit_sites": max("emit_sites"), "pairs_of_neighbours": max("pairs_of_neighbours"), "control_points": all[3], "passes": stats},
        "function_names": local,
    })
}
