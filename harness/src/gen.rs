//! Generator of well-formed programs. Builds the tree first and prints it, so the
//! expected tree of every program is known by construction.
use crate::reflex;
use crate::rng::Rng;

pub type Tk = (&'static str, String);

pub struct Program {
    pub toks: Vec<Tk>,
    pub sexpr: String,
    /// node kinds and operators which occur
    pub features: Vec<&'static str>,
}

#[derive(Clone)]
enum E {
    Lit(&'static str, String),
    Addr(&'static str, String),
    Path(Vec<String>),
    Record(Vec<String>, Vec<(Option<String>, E)>, bool),
    Paren(Vec<E>, bool),
    Block(Vec<S>),
    Call(Box<E>, Vec<E>, bool),
    Dot(Box<E>, String),
    Pre(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
}

#[derive(Clone)]
struct S {
    kind: SK,
    semi: bool,
}
#[derive(Clone)]
enum SK {
    Let(Pat, Option<Ty>, Option<E>),
    Expr(E),
}
#[derive(Clone)]
enum Pat {
    Ident(bool, String),
    Tuple(Vec<Pat>, bool),
    Record(String, Vec<(Option<String>, Pat)>, bool),
}
#[derive(Clone)]
enum Ty {
    Path(Vec<String>),
    /// AMP_MUT token / AMP MUT_KW / AMP
    Ref(u8, Box<Ty>),
}

const OPS: &[(&str, &str, u8)] = &[
    ("EQ", "=", 0),
    ("LT", "<", 1),
    ("GT", ">", 1),
    ("PIPE", "|", 2),
    ("CARET", "^", 3),
    ("AMP", "&", 4),
    ("PLUS", "+", 5),
    ("MINUS", "-", 5),
    ("STAR", "*", 6),
    ("SLASH", "/", 6),
    ("MOD", "%", 6),
];
fn op(kind: &str) -> (&'static str, &'static str, u8) {
    *OPS.iter().find(|o| o.0 == kind).unwrap()
}
fn level(e: &E) -> u8 {
    match e {
        E::Bin(k, ..) => op(k).2,
        E::Pre(..) => 7,
        _ => 8,
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    toks: Vec<Tk>,
    out: String,
    features: Vec<&'static str>,
    /// remaining size
    fuel: i32,
    /// how much longer than usual a list may be
    wide: usize,
    /// remaining levels of nesting to add to some of the expressions, patterns and types
    tall: usize,
    /// remaining links for chains of operators, calls and dots
    links: usize,
}

const WORDS: &[&str] = &[
    "a", "b", "x", "y", "_", "_x", "foo", "bar", "Coin", "T", "u8", "u64", "u128", "mutx", "letter", "moduleX",
    "self", "address_", "public", "acquires", "copy", "S1", "x0", "b1", "signer", "vector", "Script", "trueish",
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, fuel: i32) -> Gen<'r> {
        Gen { r, toks: vec![], out: String::new(), features: vec![], fuel, wide: 1, tall: 0, links: 0 }
    }

    fn open(&mut self, k: &'static str) {
        self.features.push(k);
        self.out.push_str(" (");
        self.out.push_str(k);
    }
    fn close(&mut self) {
        self.out.push(')');
    }
    /// a token that appears in the tree under `tree_kind`
    fn tok_as(&mut self, kind: &'static str, tree_kind: &'static str, text: &str) {
        self.toks.push((kind, text.to_string()));
        self.out.push_str(&format!(" {}`{}`", tree_kind, text));
    }
    fn tok(&mut self, kind: &'static str, text: &str) {
        self.tok_as(kind, kind, text)
    }

    pub fn ident(&mut self) -> String {
        if self.r.chance(3, 4) {
            return self.r.pick(WORDS).to_string();
        }
        loop {
            let n = self.r.range(1, 10);
            let first = b"abcxyzABCXYZ_";
            let rest = b"abxyzABC_0123456789";
            let mut s = String::new();
            s.push(*self.r.pick(&first[..]) as char);
            for _ in 1..n {
                s.push(*self.r.pick(&rest[..]) as char);
            }
            if !reflex::KEYWORDS.iter().any(|k| k.0 == s) {
                return s;
            }
        }
    }
    fn path_text(&mut self) -> Vec<String> {
        let n = *self.r.pick(&[1, 1, 1, 2, 2, 3]);
        (0..n).map(|_| self.ident()).collect()
    }
    fn addr(&mut self) -> (&'static str, String) {
        if self.r.bool() {
            ("IDENT", self.ident())
        } else {
            let n = self.r.range(1, 8);
            let mut s = "0x".to_string();
            for _ in 0..n {
                s.push(*self.r.pick(&b"0123456789abcdefABCDEF"[..]) as char);
            }
            ("INTEGER_NUMBER", s)
        }
    }
    fn integer(&mut self) -> String {
        let mut s = if self.r.chance(1, 3) {
            format!("0x{:x}", self.r.next() >> self.r.range(0, 63))
        } else {
            format!("{}", self.r.next() >> self.r.range(0, 63))
        };
        if self.r.chance(1, 3) {
            s.push_str(*self.r.pick(&["u8", "u64", "u128"]));
        }
        s
    }
    fn byte_string(&mut self) -> String {
        let mut s = if self.r.bool() { "b\"" } else { "x\"" }.to_string();
        for _ in 0..self.r.range(0, 6) {
            s.push_str(*self.r.pick(&[
                "a", "0", " ", "\\\"", "\\\\", "\\n", "é", "😀", "}", "//", ";", "module", "\\é", "\t",
            ]));
        }
        s.push('"');
        s
    }
    fn literal(&mut self) -> E {
        match self.r.below(5) {
            0 => E::Lit("TRUE_KW", "true".into()),
            1 => E::Lit("FALSE_KW", "false".into()),
            2 => E::Lit("BYTE_STRING", self.byte_string()),
            _ => E::Lit("INTEGER_NUMBER", self.integer()),
        }
    }
    fn burn(&mut self, n: i32) -> bool {
        self.fuel -= n;
        self.fuel > 0
    }
    fn some(&mut self, max: usize) -> usize {
        if self.fuel <= 0 {
            0
        } else {
            let wide = if self.wide > 1 && self.r.chance(1, 12) { self.wide } else { 1 };
            self.r.size(max * wide)
        }
    }

    fn expr(&mut self, depth: u32) -> E {
        let mut e = self.plain_expr(depth);
        if self.links > 0 && self.r.chance(1, 3) {
            let n = self.r.range(1, self.links);
            self.links -= n;
            e = self.chained(e, n);
        }
        if self.tall > 0 && self.r.chance(1, 3) {
            let n = self.r.range(1, self.tall);
            self.tall -= n;
            for _ in 0..n {
                e = self.wrapped(e);
            }
        }
        e
    }
    /// A long chain that grows to the left: operators, calls, dots.
    fn chained(&mut self, mut e: E, n: usize) -> E {
        let only = if self.r.bool() { Some(*self.r.pick(OPS)) } else { None };
        // operators from here on: no link may need parentheses around all before it
        let from = self.r.below(n + 1);
        if only.is_none() {
            e = self.at_least(e, 8);
        }
        for i in 0..n {
            e = match self.r.below(4) {
                _ if only.is_none() && i >= from => {
                    let l = level(&e);
                    let fit: Vec<_> = OPS.iter().filter(|o| o.2 <= l).collect();
                    let o = **self.r.pick(&fit);
                    let right = if self.r.bool() { self.literal() } else { E::Path(self.path_text()) };
                    E::Bin(o.0, Box::new(e), Box::new(right))
                }
                0 | 2 if only.is_none() => E::Dot(Box::new(e), self.ident()),
                _ if only.is_none() => {
                    let args = (0..self.r.below(3)).map(|_| E::Path(vec![self.ident()])).collect();
                    E::Call(Box::new(e), args, self.r.bool())
                }
                _ => {
                    let o = only.unwrap();
                    let right = if self.r.bool() { self.literal() } else { E::Path(self.path_text()) };
                    E::Bin(o.0, Box::new(self.at_least(e, o.2)), Box::new(right))
                }
            };
        }
        e
    }
    /// The expression inside another one.
    fn wrapped(&mut self, e: E) -> E {
        match self.r.below(8) {
            0 => E::Block(vec![S { kind: SK::Expr(e), semi: self.r.bool() }]),
            1 => {
                let p = self.pat(1);
                E::Block(vec![S { kind: SK::Let(p, None, Some(e)), semi: self.r.bool() }])
            }
            2 => {
                let name = self.path_text();
                E::Call(Box::new(E::Path(name)), vec![e], self.r.bool())
            }
            3 => E::Pre(*self.r.pick(&["STAR", "BANG", "MINUS"]), Box::new(self.at_least(e, 7))),
            4 => {
                let o = *self.r.pick(OPS);
                let l = self.literal();
                E::Bin(o.0, Box::new(l), Box::new(self.at_least(e, o.2 + 1)))
            }
            5 => {
                let (p, f) = (self.path_text(), self.ident());
                E::Record(p, vec![(Some(f), e)], self.r.bool())
            }
            6 => {
                let other = self.literal();
                E::Paren(vec![other, e], self.r.bool())
            }
            _ => E::Paren(vec![e], self.r.bool()),
        }
    }

    fn plain_expr(&mut self, depth: u32) -> E {
        if !self.burn(1) || depth == 0 {
            return if self.r.bool() { self.literal() } else { E::Path(self.path_text()) };
        }
        let d = depth - 1;
        match self.r.below(20) {
            0 | 1 => self.literal(),
            2 => {
                let (k, t) = self.addr();
                E::Addr(k, t)
            }
            3 | 4 => E::Path(self.path_text()),
            5 | 6 => {
                // the name of a record may be qualified, except right before a record brace
                let p = self.path_text();
                let n = self.some(5);
                let fields = (0..n)
                    .map(|_| {
                        if self.r.bool() {
                            (Some(self.ident()), self.expr(d))
                        } else {
                            (None, self.shorthand(d))
                        }
                    })
                    .collect();
                E::Record(p, fields, self.r.bool())
            }
            7 | 8 => {
                let n = self.some(5);
                E::Paren((0..n).map(|_| self.expr(d)).collect(), self.r.bool())
            }
            9 => E::Block(self.stmts(d)),
            10 | 11 => {
                let f = self.expr(d);
                let n = self.some(5);
                let args = (0..n).map(|_| self.expr(d)).collect();
                E::Call(Box::new(self.at_least(f, 8)), args, self.r.bool())
            }
            12 => {
                let e = self.expr(d);
                E::Dot(Box::new(self.at_least(e, 8)), self.ident())
            }
            13 => {
                let e = self.expr(d);
                let e = self.at_least(e, 7);
                E::Pre(*self.r.pick(&["STAR", "BANG", "MINUS"]), Box::new(e))
            }
            _ => {
                let o = *self.r.pick(OPS);
                let l = self.expr(d);
                let r = self.expr(d);
                let (l, r) = (self.at_least(l, o.2), self.at_least(r, o.2 + 1));
                E::Bin(o.0, Box::new(l), Box::new(r))
            }
        }
    }
    /// Puts `e` in parentheses if it binds weaker than `lvl`.
    fn at_least(&mut self, e: E, lvl: u8) -> E {
        if level(&e) < lvl {
            E::Paren(vec![e], false)
        } else {
            e
        }
    }
    fn shorthand(&mut self, d: u32) -> E {
        let base = if self.r.bool() {
            E::Path(self.path_text())
        } else {
            E::Lit("INTEGER_NUMBER", self.integer())
        };
        if self.r.chance(1, 3) {
            let o = *self.r.pick(OPS);
            let r = self.expr(d);
            let r = self.at_least(r, o.2 + 1);
            E::Bin(o.0, Box::new(base), Box::new(r))
        } else {
            base
        }
    }
    fn stmts(&mut self, depth: u32) -> Vec<S> {
        let n = self.some(6);
        (0..n)
            .map(|_| {
                let kind = if self.r.bool() {
                    let p = self.pat(3);
                    let t = if self.r.bool() { Some(self.ty(3)) } else { None };
                    let e = if self.r.bool() { Some(self.expr(depth)) } else { None };
                    SK::Let(p, t, e)
                } else {
                    SK::Expr(self.expr(depth))
                };
                S { kind, semi: self.r.chance(3, 4) }
            })
            .collect()
    }
    fn pat(&mut self, depth: u32) -> Pat {
        let mut p = self.plain_pat(depth);
        if self.tall > 0 && depth > 1 && self.r.chance(1, 4) {
            let n = self.r.range(1, self.tall);
            self.tall -= n;
            for _ in 0..n {
                p = if self.r.chance(1, 3) {
                    let (name, field) = (self.ident(), self.ident());
                    Pat::Record(name, vec![(Some(field), p)], self.r.bool())
                } else {
                    Pat::Tuple(vec![p], self.r.bool())
                };
            }
        }
        p
    }
    fn plain_pat(&mut self, depth: u32) -> Pat {
        if depth == 0 || !self.burn(1) {
            return Pat::Ident(false, self.ident());
        }
        match self.r.below(6) {
            0 | 1 | 2 => Pat::Ident(self.r.chance(1, 4), self.ident()),
            3 | 4 => {
                let n = self.some(4);
                Pat::Tuple((0..n).map(|_| self.pat(depth - 1)).collect(), self.r.bool())
            }
            _ => {
                let name = self.ident();
                let n = self.some(4);
                let fields = (0..n)
                    .map(|_| {
                        if self.r.bool() {
                            (Some(self.ident()), self.pat(depth - 1))
                        } else {
                            (None, Pat::Ident(self.r.chance(1, 4), self.ident()))
                        }
                    })
                    .collect();
                Pat::Record(name, fields, self.r.bool())
            }
        }
    }
    fn ty(&mut self, depth: u32) -> Ty {
        let mut t = self.plain_ty(depth);
        if self.tall > 0 && depth > 1 && self.r.chance(1, 4) {
            let n = self.r.range(1, self.tall);
            self.tall -= n;
            for _ in 0..n {
                t = Ty::Ref(self.r.below(3) as u8, Box::new(t));
            }
        }
        t
    }
    fn plain_ty(&mut self, depth: u32) -> Ty {
        if depth > 0 && self.r.chance(1, 3) {
            let k = self.r.below(3) as u8;
            Ty::Ref(k, Box::new(self.ty(depth - 1)))
        } else {
            Ty::Path(self.path_text())
        }
    }

    // printing ------------------------------------------------------------------

    fn name(&mut self, node: &'static str, text: &str) {
        self.open(node);
        self.tok("IDENT", text);
        self.close();
    }
    fn p_path(&mut self, p: &[String]) {
        // left-nested: a::b::c is PATH(PATH(PATH(a) :: b) :: c)
        for _ in p {
            self.open("PATH");
        }
        for (i, seg) in p.iter().enumerate() {
            if i > 0 {
                self.tok("COLON_COLON", "::");
            }
            self.open("PATH_SEGMENT");
            self.name("NAME_REF", seg);
            self.close();
            self.close();
        }
    }
    fn p_list(
        &mut self,
        node: &'static str,
        open: Tk,
        close: Tk,
        n: usize,
        trailing: bool,
        mut f: impl FnMut(&mut Self, usize),
    ) {
        self.open(node);
        self.tok(open.0, &open.1);
        for i in 0..n {
            f(self, i);
            if i + 1 < n || trailing {
                self.tok("COMMA", ",");
            }
        }
        self.tok(close.0, &close.1);
        self.close();
    }
    fn p_addr(&mut self, kind: &'static str, text: &str) {
        let tree = if kind == "INTEGER_NUMBER" { "DIEM_ADDRESS" } else { kind };
        self.tok_as(kind, tree, text);
    }
    fn p_expr(&mut self, e: &E) {
        let par = || (("L_PAREN", "(".to_string()), ("R_PAREN", ")".to_string()));
        match e {
            E::Lit(k, t) => {
                self.open("LITERAL");
                self.tok(k, t);
                self.close();
            }
            E::Addr(k, t) => {
                self.open("LITERAL");
                self.open("ADDRESS_LIT");
                self.tok("ATSIGN", "@");
                self.p_addr(k, t);
                self.close();
                self.close();
            }
            E::Path(p) => {
                self.open("PATH_EXPR");
                self.p_path(p);
                self.close();
            }
            E::Record(p, fields, trailing) => {
                self.open("RECORD_EXPR");
                self.p_path(p);
                self.p_list(
                    "RECORD_EXPR_FIELD_LIST",
                    ("L_BRACE", "{".into()),
                    ("R_BRACE", "}".into()),
                    fields.len(),
                    *trailing && !fields.is_empty(),
                    |g, i| {
                        g.open("RECORD_EXPR_FIELD");
                        if let Some(n) = &fields[i].0 {
                            g.name("NAME_REF", n);
                            g.tok("COLON", ":");
                        }
                        g.p_expr(&fields[i].1);
                        g.close();
                    },
                );
                self.close();
            }
            E::Paren(es, trailing) => {
                let (o, c) = par();
                self.p_list("PAREN_EXPR", o, c, es.len(), *trailing && !es.is_empty(), |g, i| g.p_expr(&es[i]));
            }
            E::Block(ss) => self.p_block(ss),
            E::Call(f, args, trailing) => {
                self.open("CALL_EXPR");
                self.p_expr(f);
                let (o, c) = par();
                self.p_list("ARG_LIST", o, c, args.len(), *trailing && !args.is_empty(), |g, i| g.p_expr(&args[i]));
                self.close();
            }
            E::Dot(x, n) => {
                self.open("DOT_EXPR");
                self.p_expr(x);
                self.tok("DOT", ".");
                self.name("NAME_REF", n);
                self.close();
            }
            E::Pre(k, x) => {
                self.open("PREFIX_EXPR");
                let t = match *k {
                    "STAR" => "*",
                    "BANG" => "!",
                    _ => "-",
                };
                self.tok(k, t);
                self.p_expr(x);
                self.close();
            }
            E::Bin(k, l, r) => {
                let o = op(k);
                self.features.push(o.0);
                self.open("BIN_EXPR");
                self.p_expr(l);
                self.tok(o.0, o.1);
                self.p_expr(r);
                self.close();
            }
        }
    }
    fn p_block(&mut self, ss: &[S]) {
        self.open("BLOCK_EXPR");
        self.tok("L_BRACE", "{");
        for (i, s) in ss.iter().enumerate() {
            // Whether the `;` may be left out depends on what follows.
            let mark_toks = self.toks.len();
            match &s.kind {
                SK::Let(p, t, e) => {
                    self.open("LET_STMT");
                    self.tok("LET_KW", "let");
                    self.p_pat(p);
                    if let Some(t) = t {
                        self.tok("COLON", ":");
                        self.p_ty(t);
                    }
                    if let Some(e) = e {
                        self.tok("EQ", "=");
                        self.p_expr(e);
                    }
                }
                SK::Expr(e) => {
                    self.open("EXPR_STMT");
                    self.p_expr(e);
                }
            }
            debug_assert!(self.toks.len() > mark_toks);
            let next_is_clear = match ss.get(i + 1).map(|s| &s.kind) {
                None | Some(SK::Let(..)) => true,
                Some(SK::Expr(e)) => matches!(
                    first_token(e),
                    "IDENT" | "INTEGER_NUMBER" | "TRUE_KW" | "FALSE_KW" | "BYTE_STRING" | "ATSIGN" | "BANG"
                ),
            };
            if s.semi || !next_is_clear {
                self.tok("SEMICOLON", ";");
            }
            self.close();
        }
        self.tok("R_BRACE", "}");
        self.close();
    }
    fn p_pat(&mut self, p: &Pat) {
        match p {
            Pat::Ident(m, n) => {
                self.open("IDENT_PAT");
                if *m {
                    self.tok("MUT_KW", "mut");
                }
                self.name("NAME", n);
                self.close();
            }
            Pat::Tuple(ps, trailing) => {
                let trailing = *trailing && !ps.is_empty();
                let node = if ps.len() == 1 && !trailing { "PAREN_PAT" } else { "TUPLE_PAT" };
                self.p_list(
                    node,
                    ("L_PAREN", "(".into()),
                    ("R_PAREN", ")".into()),
                    ps.len(),
                    trailing,
                    |g, i| g.p_pat(&ps[i]),
                );
            }
            Pat::Record(n, fields, trailing) => {
                self.open("RECORD_PAT");
                self.p_path(&[n.clone()]);
                self.p_list(
                    "RECORD_PAT_FIELD_LIST",
                    ("L_BRACE", "{".into()),
                    ("R_BRACE", "}".into()),
                    fields.len(),
                    *trailing && !fields.is_empty(),
                    |g, i| {
                        g.open("RECORD_PAT_FIELD");
                        if let Some(n) = &fields[i].0 {
                            g.name("NAME_REF", n);
                            g.tok("COLON", ":");
                        }
                        g.p_pat(&fields[i].1);
                        g.close();
                    },
                );
                self.close();
            }
        }
    }
    fn p_ty(&mut self, t: &Ty) {
        match t {
            Ty::Path(p) => {
                self.open("PATH_TYPE");
                self.p_path(p);
                self.close();
            }
            Ty::Ref(k, t) => {
                self.open("REF_TYPE");
                match k {
                    0 => self.tok("AMP_MUT", "&mut"),
                    1 => self.tok("AMP", "&"),
                    _ => {
                        self.tok("AMP", "&");
                        self.tok("MUT_KW", "mut");
                    }
                }
                self.p_ty(t);
                self.close();
            }
        }
    }

    // items -----------------------------------------------------------------------

    fn function(&mut self) {
        self.open("FUNCTION_DEF");
        self.tok("FUN_KW", "fun");
        let n = self.ident();
        self.name("NAME", &n);
        let n = self.some(4);
        let params: Vec<(String, Ty)> = (0..n).map(|_| (self.ident(), self.ty(3))).collect();
        let trailing = self.r.bool() && !params.is_empty();
        self.p_list(
            "PARAM_LIST",
            ("L_PAREN", "(".into()),
            ("R_PAREN", ")".into()),
            params.len(),
            trailing,
            |g, i| {
                g.open("PARAM");
                g.name("NAME", &params[i].0);
                g.tok("COLON", ":");
                g.p_ty(&params[i].1);
                g.close();
            },
        );
        if self.r.bool() {
            self.open("RET_TYPE");
            self.tok("COLON", ":");
            let t = self.ty(3);
            self.p_ty(&t);
            self.close();
        }
        let ss = self.stmts(4);
        self.p_block(&ss);
        self.close();
    }
    fn structure(&mut self) {
        self.open("STRUCT");
        self.tok("STRUCT_KW", "struct");
        let n = self.ident();
        self.name("NAME", &n);
        if self.r.bool() {
            let n = self.some(4);
            let trailing = n > 0 && self.r.bool();
            self.p_list(
                "GENERIC_PARAM_LIST",
                ("LT", "<".into()),
                ("GT", ">".into()),
                n,
                trailing,
                |g, _| {
                    g.open("TYPE_PARAM");
                    let n = g.ident();
                    g.name("NAME", &n);
                    if g.r.bool() {
                        g.tok("COLON", ":");
                        g.open("TYPE_BOUND_LIST");
                        let n = g.r.range(1, 3);
                        for i in 0..n {
                            if i > 0 {
                                g.tok("PLUS", "+");
                            }
                            g.open("TYPE_BOUND");
                            let n = g.ident();
                            g.name("NAME", &n);
                            g.close();
                        }
                        g.close();
                    }
                    g.close();
                },
            );
        }
        if self.r.chance(1, 4) {
            self.tok("SEMICOLON", ";");
        } else {
            let n = self.some(5);
            let trailing = n > 0 && self.r.bool();
            self.p_list(
                "RECORD_FIELD_LIST",
                ("L_BRACE", "{".into()),
                ("R_BRACE", "}".into()),
                n,
                trailing,
                |g, _| {
                    g.open("RECORD_FIELD");
                    let n = g.ident();
                    g.name("NAME", &n);
                    g.tok("COLON", ":");
                    let t = g.ty(3);
                    g.p_ty(&t);
                    g.close();
                },
            );
        }
        self.close();
    }
    fn body_or_semi(&mut self) {
        if self.r.chance(1, 8) {
            self.tok("SEMICOLON", ";");
            return;
        }
        self.open("ITEM_LIST");
        self.tok("L_BRACE", "{");
        let n = self.some(5);
        for _ in 0..n {
            if self.r.chance(2, 3) {
                self.function()
            } else {
                self.structure()
            }
        }
        self.tok("R_BRACE", "}");
        self.close();
    }
    fn module(&mut self) {
        self.open("MODULE_DEF");
        self.tok("MODULE_KW", "module");
        if self.r.chance(1, 3) {
            let (k, t) = self.addr();
            self.open("ADDRESS_IDENT");
            self.p_addr(k, &t);
            self.close();
            self.tok("COLON_COLON", "::");
        }
        let n = self.ident();
        self.name("NAME", &n);
        self.body_or_semi();
        self.close();
    }
    pub fn program(mut self) -> Program {
        self.open("SOURCE_FILE");
        let n = if self.wide > 1 { 1 + self.some(4) } else { self.r.range(0, 4) };
        for _ in 0..n {
            match self.r.below(6) {
                0 => {
                    self.open("SCRIPT_DEF");
                    self.tok("SCRIPT_KW", "script");
                    self.body_or_semi();
                    self.close();
                }
                1 => {
                    self.open("ADDRESS_DEF");
                    self.tok("ADDRESS_KW", "address");
                    let (k, t) = self.addr();
                    self.open("ADDRESS_IDENT");
                    self.p_addr(k, &t);
                    self.close();
                    self.open("ADDRESS_ITEM_LIST");
                    self.tok("L_BRACE", "{");
                    for _ in 0..self.r.range(0, 3) {
                        self.module();
                    }
                    self.tok("R_BRACE", "}");
                    self.close();
                    self.close();
                }
                _ => self.module(),
            }
        }
        self.close();
        self.features.sort();
        self.features.dedup();
        Program { toks: self.toks, sexpr: self.out.trim_start().to_string(), features: self.features }
    }
}

fn first_token(e: &E) -> &'static str {
    match e {
        E::Lit(k, _) => k,
        E::Addr(..) => "ATSIGN",
        E::Path(..) | E::Record(..) => "IDENT",
        E::Paren(..) => "L_PAREN",
        E::Block(..) => "L_BRACE",
        E::Call(f, ..) => first_token(f),
        E::Dot(x, _) => first_token(x),
        E::Pre(k, _) => k,
        E::Bin(_, l, _) => first_token(l),
    }
}

pub fn program(r: &mut Rng, fuel: i32) -> Program {
    Gen::new(r, fuel).program()
}

/// A program of up to some size; one of forty is wide or tall.
pub fn sized_program(r: &mut Rng) -> Program {
    match r.below(80) {
        0 => wide_program(r, 600),
        1 => tall_program(r),
        _ => {
            let fuel = *r.pick(&[5, 20, 60, 200]);
            program(r, fuel)
        }
    }
}

/// A program with long lists and bodies.
pub fn wide_program(r: &mut Rng, fuel: i32) -> Program {
    let wide = *r.pick(&[5, 20, 60]);
    let mut g = Gen::new(r, fuel);
    g.wide = wide;
    g.program()
}

/// A program with expressions, patterns and types inside one another to some depth, and long
/// chains of operators.
pub fn tall_program(r: &mut Rng) -> Program {
    let (tall, links) = (*r.pick(&[0, 10, 40, 90]), *r.pick(&[0, 20, 100, 500]));
    let fuel = *r.pick(&[20, 60]);
    let mut g = Gen::new(r, fuel);
    g.tall = tall;
    g.links = links;
    g.wide = 2;
    g.program()
}

// rendering -------------------------------------------------------------------------

const COMMENT_BITS: &[&str] = &[
    "", " ", "x", "module M {", "}", "\"", "b\"", "é", "😀", "//", "/*", "fun", "\\", ";", "\t", "/", "日本", "@",
    "\r",
];

/// Some whitespace and comments (possibly nothing).
pub fn trivia(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = *r.pick(&[0, 0, 1, 1, 1, 2, 3, 6]);
    for _ in 0..n {
        match r.below(8) {
            0 | 1 | 2 => s.push(' '),
            3 => s.push('\n'),
            4 => s.push('\t'),
            5 => {
                s.push_str("//");
                for _ in 0..r.range(0, 4) {
                    let bit = *r.pick(COMMENT_BITS);
                    if bit != "\r" || r.chance(1, 4) {
                        s.push_str(bit);
                    }
                }
                s.push('\n');
            }
            6 => s.push_str("\n    "),
            _ => s.push_str("  "),
        }
    }
    s
}

fn joins(a: &str, b: &str) -> bool {
    let s = format!("{}{}", a, b);
    let t = reflex::lex(&s);
    !(t.len() >= 2 && t[0].end == a.len())
}

/// Prints tokens with `sep` between them; a space is put where two tokens (or a
/// token and a comment) would melt together.
pub fn render(toks: &[Tk], mut sep: impl FnMut() -> String) -> String {
    let mut s = String::new();
    s.push_str(&sep());
    let mut prev: Option<&str> = None;
    let mut gap = String::new();
    for (_, text) in toks {
        if let Some(p) = prev {
            if (gap.is_empty() && joins(p, text)) || (!gap.is_empty() && joins(p, &gap)) {
                s.push(' ');
            }
            s.push_str(&gap);
        }
        s.push_str(text);
        prev = Some(text);
        gap = sep();
    }
    if let Some(p) = prev {
        if !gap.is_empty() && joins(p, &gap) {
            s.push(' ');
        }
        s.push_str(&gap);
    }
    s
}

/// Does `src` consist of exactly these tokens?
pub fn consists_of(src: &str, toks: &[Tk]) -> bool {
    let l = reflex::lex_significant(src);
    l.len() == toks.len() && l.iter().zip(toks).all(|(a, b)| a.kind == b.0 && a.text(src) == b.1)
}

// hostile inputs --------------------------------------------------------------------

pub const ANY_TOKEN: &[&str] = &[
    "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", ".", "..", "+", "-", "*", "/", "%", "^", "#", "@", "&", "&&",
    "&mut", "|", "||", "!", "!=", "=", "==", "==>", ">", ">>", ">=", "<", "<<", "<=", "<==>", "struct", "script",
    "module", "const", "use", "as", "let", "mut", "return", "fun", "true", "false", "move", "while", "if", "else",
    "break", "continue", "address", "0", "1u8", "0x1", "0xFFu64", "b\"a\"", "x\"0\"", "b\"", "x", "y", "M", "T", "_",
    "é", "$", "\"", "'", "\r", "~", "`",
];
const GRAMMAR_TOKEN: &[&str] = &[
    "(", ")", "{", "}", ",", ";", ":", "::", ".", "+", "*", "-", "@", "&", "&mut", "=", "<", ">", "struct", "script",
    "module", "let", "mut", "fun", "true", "address", "1", "0x1", "x", "M", "T", "b\"a\"",
];

pub fn random_token(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        r.pick(GRAMMAR_TOKEN).to_string()
    } else {
        r.pick(ANY_TOKEN).to_string()
    }
}

pub fn token_soup(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    let mut s = String::new();
    // often start inside a body, where most of the grammar is
    match r.below(5) {
        0 => s.push_str("module M { fun f() { "),
        1 => s.push_str("module M { "),
        2 => s.push_str("script { fun f("),
        3 => s.push_str("address 0x1 { "),
        _ => (),
    }
    for _ in 0..n {
        s.push_str(&random_token(r));
        match r.below(6) {
            0 => (),
            1 => s.push('\n'),
            2 => s.push_str(&trivia(r)),
            _ => s.push(' '),
        }
    }
    if r.bool() {
        s.push_str(" } }");
    }
    s
}

const CHARS: &[&str] = &[
    "a", "b", "x", "0", "9", "_", " ", "\n", "\t", "\r", "\r\n", "\"", "'", "\\", "/", "*", "&", "m", "u", "t", "8", "{",
    "}", "(", ")", ";", ":", ",", ".", "=", "<", ">", "!", "@", "#", "$", "é", "ß", "日", "😀", "\u{0}", "\u{7f}",
    "\u{feff}", "\u{2028}", "\u{301}", "\u{10ffff}", "\u{85}", "\u{a0}", "\u{b}", "\u{c}", "0x", "b\"", "x\"", "//",
];

pub fn char_soup(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 12) {
            s.push(char::from_u32((r.next() % 0x11_0000) as u32).unwrap_or('\u{fffd}'));
        } else {
            s.push_str(*r.pick(CHARS));
        }
    }
    s
}

/// A well-formed program with a few tokens changed; as tokens.
pub fn mutate_tokens(r: &mut Rng, toks: &[Tk]) -> Vec<Tk> {
    let mut t: Vec<Tk> = toks.to_vec();
    for _ in 0..r.range(1, 3) {
        let n = t.len();
        match r.below(7) {
            0 if n > 0 => {
                t.remove(r.below(n));
            }
            1 if n > 0 => {
                let i = r.below(n);
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 if n > 1 => {
                let i = r.below(n - 1);
                t.swap(i, i + 1);
            }
            3 if n > 0 => {
                let i = r.below(n);
                t[i] = ("?", random_token(r));
            }
            4 => t.insert(r.range(0, n), ("?", random_token(r))),
            5 if n > 0 => t.truncate(r.below(n)),
            6 if n > 2 => {
                let (i, j) = (r.below(n), r.below(n));
                let (i, j) = (i.min(j), i.max(j).min(i + 6));
                t.drain(i..j);
            }
            _ => (),
        }
    }
    t
}

pub fn mutate_chars(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = c.len();
        match r.below(4) {
            0 if n > 0 => {
                c.remove(r.below(n));
            }
            1 if n > 0 => c.truncate(r.below(n)),
            _ => {
                let ins: Vec<char> = r.pick(CHARS).chars().collect();
                let i = r.range(0, n);
                for (k, ch) in ins.into_iter().enumerate() {
                    c.insert(i + k, ch);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// Any kind of text.
pub fn any_text(r: &mut Rng, fuel: i32) -> String {
    match r.below(8) {
        0 => char_soup(r, 80),
        1 | 2 => token_soup(r, 60),
        3 => {
            let p = program(r, fuel);
            let s = render(&p.toks, || trivia(r));
            mutate_chars(r, &s)
        }
        4 | 5 => {
            let p = program(r, fuel);
            let t = mutate_tokens(r, &p.toks);
            render_loose(r, &t)
        }
        _ => {
            let p = program(r, fuel);
            render(&p.toks, || trivia(r))
        }
    }
}

/// Prints tokens that need not be ones of the language.
pub fn render_loose(r: &mut Rng, toks: &[Tk]) -> String {
    let mut s = String::new();
    for (_, t) in toks {
        s.push_str(t);
        match r.below(5) {
            0 => s.push('\n'),
            1 => {
                s.push(' ');
                s.push_str(&trivia(r));
            }
            _ => s.push(' '),
        }
    }
    s
}

/// A text with something around a power of two long: a token, a line, the number of
/// lines, tokens or errors.
pub fn big_text(r: &mut Rng) -> String {
    fn number(r: &mut Rng) -> usize {
        let p = *r.pick(&[8, 10, 12, 15, 16, 16, 16, 17, 17]);
        (1usize << p) + r.range(0, 6) - 3
    }
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(*r.pick(&["", "", "module M { fun f() { let é", "module M { fun f() { x = ", "\n", "// 日\n", "script { fun f(", "日"]));
        let n = number(r);
        match r.below(15) {
            0 => {
                s.push_str("//");
                s.push_str(&r.pick(&["x", "日", "é ", "😀"]).repeat(n / 2));
                s.push('\n');
            }
            1 => s.push_str(&" ".repeat(n)),
            2 => s.push_str(&"\n".repeat(n)),
            3 => s.push_str(&r.pick(&["a", "Z_", "x1"]).repeat(n)),
            4 => s.push_str(&r.pick(&["1", "90"]).repeat(n)),
            5 => {
                s.push_str("0x");
                s.push_str(&"f".repeat(n));
            }
            6 => {
                s.push_str("b\"");
                s.push_str(&r.pick(&["a", "\\\\", "日", "\\\""]).repeat(n));
                s.push_str(*r.pick(&["\"", "\" ", "", "\n"]));
            }
            7 => {
                s.push_str("x\"");
                s.push_str(&"0".repeat(n));
                s.push('"');
            }
            8 => s.push_str(&"x ".repeat(n)),
            9 => s.push_str(&"$".repeat(n)),
            10 => s.push_str(&"a;\n".repeat(n)),
            11 => s.push_str(&"é".repeat(n)),
            12 => {
                s.push_str("f(");
                s.push_str(&"1, ".repeat(n));
                s.push(')');
            }
            13 => {
                let line = format!("{}\n", random_token(r).repeat(r.range(1, 300)));
                let k = n / line.len() + 1;
                s.push_str(&line.repeat(k));
            }
            _ => s.push_str(&"//\n".repeat(n)),
        }
        s.push_str(*r.pick(&["", " ", "\n", ";", " }", " } }", "(", "@", "日 x"]));
        if r.bool() {
            let t = any_text(r, 20);
            s.push_str(&t);
        }
    }
    s
}
