//! The typed view of the tree.
use super::Spec;
use crate::reflex;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::rng::Rng;
use rowan::{NodeOrToken, WalkEvent};
use serde_json::json;
use syntax::ast::{self, AstNode, AstToken};
use syntax::syntax_node::{SyntaxNode, SyntaxToken, SyntaxTreeBuilder};
use syntax::{Parse, SourceFile, SyntaxKind};
use SyntaxKind::*;

pub const P25: Spec = Spec {
    id: "P25",
    run: p25,
    rule: "Texts as for the parser, well-formed and not; every node and token of their trees is cast to every type, every \
           accessor compared with the node's own children; the same for trees of any shape made with the tree builder; the results of a parse (tree, errors, ok, cast, dump) with each \
           other; all numbers to syntax kinds and back. Non-trivial: a new text with a node of a type besides the file.",
    assumptions: &["rowan's untyped trees are right (P02 compares them with the text)"],
    budget: (60, 500),
    max_shards: 8,
    at_least: 500,
};

fn own(n: &SyntaxNode, kinds: &[SyntaxKind]) -> Vec<SyntaxNode> {
    let mut v = vec![];
    let mut it = n.first_child_or_token();
    while let Some(e) = it {
        if let NodeOrToken::Node(m) = &e {
            if kinds.contains(&m.kind()) {
                v.push(m.clone());
            }
        }
        it = e.next_sibling_or_token();
    }
    v
}

fn own_token(n: &SyntaxNode, kind: SyntaxKind) -> Option<SyntaxToken> {
    let mut it = n.first_child_or_token();
    while let Some(e) = it {
        if let NodeOrToken::Token(t) = &e {
            if t.kind() == kind {
                return Some(t.clone());
            }
        }
        it = e.next_sibling_or_token();
    }
    None
}

fn cast<T: AstNode + std::fmt::Display + Clone + PartialEq>(n: &SyntaxNode, kinds: &[SyntaxKind]) -> Result<Option<T>, String> {
    let fits = kinds.contains(&n.kind());
    let name = std::any::type_name::<T>();
    if T::can_cast(n.kind()) != fits {
        return Err(format!("{}::can_cast({:?}) is {}", name, n.kind(), !fits));
    }
    match T::cast(n.clone()) {
        Some(t) if fits => {
            if t.syntax() != n {
                return Err(format!("{}: the node of a cast is not the one that was cast", name));
            }
            if t.to_string() != n.text().to_string() {
                return Err(format!("{}: {:?} is shown as {:?}", name, n.text().to_string(), t.to_string()));
            }
            let (a, b) = (t.clone_for_update(), t.clone_subtree());
            if a.syntax().text() != n.text() || b.syntax().text() != n.text() || a.syntax().text_range() != n.text_range() {
                return Err(format!("{}: a copy has another text or place", name));
            }
            Ok(Some(t))
        }
        None if !fits => Ok(None),
        r => Err(format!("{}::cast of {:?} is {}", name, n.kind(), if r.is_some() { "something" } else { "nothing" })),
    }
}

fn cast_token<T: AstToken + std::fmt::Display>(t: &SyntaxToken, kind: SyntaxKind) -> Result<(), String> {
    let fits = t.kind() == kind;
    let name = std::any::type_name::<T>();
    if T::can_cast(t.kind()) != fits {
        return Err(format!("{}::can_cast({:?}) is {}", name, t.kind(), !fits));
    }
    match T::cast(t.clone()) {
        Some(x) if fits && x.syntax() == t && x.text() == t.text() && x.to_string() == t.text() => Ok(()),
        None if !fits => Ok(()),
        _ => Err(format!("{}::cast of {:?} {:?}", name, t.kind(), t.text())),
    }
}

fn same<T: AstNode>(what: &str, have: impl Iterator<Item = T>, want: Vec<SyntaxNode>) -> Result<(), String> {
    let have: Vec<SyntaxNode> = have.map(|t| t.syntax().clone()).collect();
    if have != want {
        return Err(format!("{}: {} nodes, {} expected", what, have.len(), want.len()));
    }
    Ok(())
}

fn token(what: &str, n: &SyntaxNode, have: Option<SyntaxToken>, kind: SyntaxKind) -> Result<(), String> {
    if have != own_token(n, kind) {
        return Err(format!("{}: {:?}, expected {:?}", what, have, own_token(n, kind)));
    }
    Ok(())
}

const EXPRS: &[SyntaxKind] = &[BIN_EXPR, LITERAL];

fn node(n: &SyntaxNode) -> Result<usize, String> {
    let mut typed = 0;
    if let Some(t) = cast::<ast::SourceFile>(n, &[SOURCE_FILE])? {
        same("SourceFile::script_defs", t.script_defs(), own(n, &[SCRIPT_DEF]))?;
    }
    if let Some(t) = cast::<ast::ScriptDef>(n, &[SCRIPT_DEF])? {
        typed += 1;
        same("ScriptDef::function_defs", t.function_defs(), own(n, &[FUNCTION_DEF]))?;
        token("ScriptDef::l_brace_token", n, t.l_brace_token(), L_BRACE)?;
        token("ScriptDef::r_brace_token", n, t.r_brace_token(), R_BRACE)?;
    }
    if let Some(t) = cast::<ast::FunctionDef>(n, &[FUNCTION_DEF])? {
        typed += 1;
        same("FunctionDef::expr_stmts", t.expr_stmts(), own(n, &[EXPR_STMT]))?;
        token("FunctionDef::fun_token", n, t.fun_token(), FUN_KW)?;
        token("FunctionDef::ident_token", n, t.ident_token(), IDENT)?;
        token("FunctionDef::l_paren_token", n, t.l_paren_token(), L_PAREN)?;
        token("FunctionDef::r_paren_token", n, t.r_paren_token(), R_PAREN)?;
        token("FunctionDef::l_brace_token", n, t.l_brace_token(), L_BRACE)?;
        token("FunctionDef::r_brace_token", n, t.r_brace_token(), R_BRACE)?;
    }
    if let Some(t) = cast::<ast::ExprStmt>(n, &[EXPR_STMT])? {
        typed += 1;
        same("ExprStmt::expr", t.expr().into_iter(), own(n, EXPRS).into_iter().take(1).collect())?;
        token("ExprStmt::semicolon_token", n, t.semicolon_token(), SEMICOLON)?;
    }
    if let Some(t) = cast::<ast::BinExpr>(n, &[BIN_EXPR])? {
        typed += 1;
        token("BinExpr::plus_token", n, t.plus_token(), PLUS)?;
        token("BinExpr::minus_token", n, t.minus_token(), MINUS)?;
        token("BinExpr::star_token", n, t.star_token(), STAR)?;
        token("BinExpr::slash_token", n, t.slash_token(), SLASH)?;
        token("BinExpr::mod_token", n, t.mod_token(), MOD)?;
        same("BinExpr::lhs", t.lhs().into_iter(), own(n, EXPRS).into_iter().take(1).collect())?;
        if ast::Expr::from(t.clone()) != ast::Expr::BinExpr(t) {
            return Err("Expr::from(BinExpr)".into());
        }
    }
    if let Some(t) = cast::<ast::Literal>(n, &[LITERAL])? {
        typed += 1;
        token("Literal::true_token", n, t.true_token(), TRUE_KW)?;
        token("Literal::false_token", n, t.false_token(), FALSE_KW)?;
        if ast::Expr::from(t.clone()) != ast::Expr::Literal(t) {
            return Err("Expr::from(Literal)".into());
        }
    }
    match (cast::<ast::Expr>(n, EXPRS)?, n.kind()) {
        (Some(ast::Expr::BinExpr(_)), BIN_EXPR) | (Some(ast::Expr::Literal(_)), LITERAL) | (None, _) => Ok(typed),
        (_, k) => Err(format!("the variant of Expr for {:?} is another one", k)),
    }
}

/// The dump has one line for each node, token and error, in order.
fn dump(dump: &str, root: &SyntaxNode, errors: &[syntax::syntax_error::SyntaxError]) -> Result<(), String> {
    let mut want = vec![];
    let mut depth = 0;
    for ev in root.preorder_with_tokens() {
        match ev {
            WalkEvent::Enter(e) => {
                let r = e.text_range();
                let (a, b) = (u32::from(r.start()), u32::from(r.end()));
                want.push(format!("{}{:?}@{}..{}", "  ".repeat(depth), e.kind(), a, b));
                depth += 1;
            }
            WalkEvent::Leave(_) => depth -= 1,
        }
    }
    for e in errors {
        let all = format!("error {}..{}: {}", u32::from(e.range().start()), u32::from(e.range().end()), e);
        want.extend(all.lines().map(|l| l.to_string()));
    }
    let mut have = dump.lines();
    for w in &want {
        match have.next() {
            Some(l) if l == w || l.strip_prefix(w.as_str()).map_or(false, |rest| rest.starts_with(' ')) => (),
            l => return Err(format!("the dump has {:?} where {:?} is expected", l, w)),
        }
    }
    match have.next() {
        None => Ok(()),
        Some(l) => Err(format!("the dump has one more line: {:?}", l)),
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => {
            let p = gen::program(r, 50);
            gen::render(&p.toks, || " ".into())
        }
        1 => {
            // scripts of literals and operators
            let mut s = String::from("script { ");
            for i in 0..r.range(1, 3) {
                s.push_str(&format!("fun f{}() {{ {}; {} }} ", i, operands(r, 4).0, operands(r, 3).0));
            }
            s + "}"
        }
        _ => gen::any_text(r, 30),
    }
}

/// A chain of literals and operators of one precedence; its last operand, and what is before.
fn operands(r: &mut Rng, most: usize) -> (String, String, String) {
    let lit = |r: &mut Rng| (*r.pick(&["1", "true", "0x1F", "b\"a\"", "12u8", "false"])).to_string();
    let mut left = lit(r);
    for _ in 0..r.below(most) {
        left = format!("{} {} {}", left, r.pick(&["*", "/", "%"]), lit(r));
    }
    let right = lit(r);
    (format!("{} {} {}", left, r.pick(&["*", "/", "%"]), right), left, right)
}

/// Casts of every node and token.
fn all(root: &SyntaxNode, c: &mut Case) -> Result<usize, String> {
    let mut typed = 0;
    for ev in root.preorder_with_tokens() {
        match ev {
            WalkEvent::Enter(NodeOrToken::Node(n)) => {
                typed += node(&n)?;
                c.count("nodes", 1);
                c.seen("kinds of nodes", format!("{:?}", n.kind()));
            }
            WalkEvent::Enter(NodeOrToken::Token(t)) => {
                cast_token::<ast::Whitespace>(&t, WHITESPACE)?;
                cast_token::<ast::Comment>(&t, COMMENT)?;
                cast_token::<ast::HexString>(&t, HEX_STRING)?;
                cast_token::<ast::ByteString>(&t, BYTE_STRING)?;
                cast_token::<ast::IntegerNumber>(&t, INTEGER_NUMBER)?;
                c.count("tokens", 1);
                c.seen("kinds of tokens", format!("{:?}", t.kind()));
            }
            _ => (),
        }
    }
    Ok(typed)
}

/// A tree as a parser could build it, if its grammar were another one.
enum Made {
    Node(SyntaxKind, Vec<Made>),
    Token(SyntaxKind, String),
}

const MADE_NODES: &[SyntaxKind] =
    &[SOURCE_FILE, SCRIPT_DEF, FUNCTION_DEF, EXPR_STMT, BIN_EXPR, LITERAL, PATH_EXPR, ERROR, BLOCK_EXPR, PARAM_LIST];
const MADE_TOKENS: &[(SyntaxKind, &str)] = &[
    (L_BRACE, "{"), (R_BRACE, "}"), (FUN_KW, "fun"), (IDENT, "é"), (IDENT, "f"), (L_PAREN, "("), (R_PAREN, ")"), (SEMICOLON, ";"),
    (PLUS, "+"), (MINUS, "-"), (STAR, "*"), (SLASH, "/"), (MOD, "%"), (TRUE_KW, "true"), (FALSE_KW, "false"), (WHITESPACE, " "),
    (WHITESPACE, "\n\t"), (COMMENT, "// 日"), (HEX_STRING, "x\"00\""), (BYTE_STRING, "b\"\""), (INTEGER_NUMBER, "12u8"), (ERROR, "#"),
];

fn make(r: &mut Rng, depth: usize) -> Made {
    if depth == 0 || r.chance(1, 3) {
        let (k, t) = *r.pick(MADE_TOKENS);
        return Made::Token(k, t.to_string());
    }
    let kind = *r.pick(MADE_NODES);
    Made::Node(kind, (0..r.range(0, 6)).map(|_| make(r, depth - 1)).collect())
}

impl Made {
    fn build(&self, b: &mut SyntaxTreeBuilder) {
        match self {
            Made::Node(k, v) => {
                b.start_node(*k);
                v.iter().for_each(|x| x.build(b));
                b.finish_node();
            }
            Made::Token(k, t) => b.token(*k, t),
        }
    }
    fn text(&self) -> String {
        match self {
            Made::Node(_, v) => v.iter().map(|x| x.text()).collect(),
            Made::Token(_, t) => t.clone(),
        }
    }
    /// kind, start and end of all, in preorder
    fn list(&self, at: usize, out: &mut Vec<(SyntaxKind, usize, usize)>) -> usize {
        match self {
            Made::Node(k, v) => {
                let i = out.len();
                out.push((*k, at, 0));
                let end = v.iter().fold(at, |at, x| x.list(at, out));
                out[i].2 = end;
                end
            }
            Made::Token(k, t) => {
                out.push((*k, at, at + t.len()));
                at + t.len()
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Made::Node(k, v) => format!("({:?} {})", k, v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
            Made::Token(_, t) => format!("{:?}", t),
        }
    }
}

/// The typed view of trees of any shape.
fn built(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let kind = if r.chance(2, 3) { SOURCE_FILE } else { *r.pick(MADE_NODES) };
    let tree = Made::Node(kind, (0..r.range(0, 5)).map(|_| make(r, 3)).collect());
    let text = tree.text();
    let mut errors: Vec<(String, usize)> =
        (0..r.below(3)).map(|i| (format!("message {}", i), r.below(text.len() + 1))).collect();
    c.input(&format!("{} {:?}", tree.show(), errors));
    let finish = |tree: &Made, errors: &[(String, usize)]| -> Parse<SyntaxNode> {
        let mut b = SyntaxTreeBuilder::default();
        tree.build(&mut b);
        for (m, at) in errors {
            b.error(parser::ParseError(Box::new(m.clone())), (*at as u32).into());
        }
        b.finish()
    };
    let p = finish(&tree, &errors);
    let root = p.syntax_node();
    let have: Vec<(SyntaxKind, usize, usize)> = root
        .descendants_with_tokens()
        .map(|e| (e.kind(), usize::from(e.text_range().start()), usize::from(e.text_range().end())))
        .collect();
    let mut want = vec![];
    tree.list(0, &mut want);
    if have != want || root.text().to_string() != text {
        return Err("the tree that was built is another one".into());
    }
    if all(&root, c)? > 0 {
        c.nontrivial(&tree.show());
    }
    if p != finish(&tree, &errors) {
        return Err("the same, built again, is not equal".into());
    }
    let more = match &tree {
        Made::Node(k, _) => Made::Node(*k, vec![Made::Token(WHITESPACE, format!("{}\n", text))]),
        t => return Err(format!("ERROR {}", t.show())),
    };
    if p == finish(&more, &errors) {
        return Err("two trees with different texts are equal".into());
    }
    match (kind == SOURCE_FILE, p.clone().cast::<SourceFile>()) {
        (false, None) => (),
        (true, Some(f)) => {
            let list: Vec<(String, usize, usize)> = f
                .errors()
                .iter()
                .map(|e| (e.to_string(), usize::from(e.range().start()), usize::from(e.range().end())))
                .collect();
            if list != errors.iter().map(|(m, at)| (m.clone(), *at, *at)).collect::<Vec<_>>() {
                return Err(format!("the errors are {:?}", list));
            }
            dump(&f.debug_dump(), &root, f.errors())?;
            match f.clone().ok() {
                Ok(t) if errors.is_empty() && t.syntax().text() == root.text() => (),
                Err(e) if !errors.is_empty() && e.as_slice() == f.errors() => (),
                r => return Err(format!("ok() is {:?} with {} errors", r.map(|_| "a tree").map_err(|e| e.len()), errors.len())),
            }
            if f.to_syntax() != p {
                return Err("cast to a file and back it is another".into());
            }
        }
        (x, y) => return Err(format!("a root that is {:?} was cast to a file: {} {}", kind, x, y.is_some())),
    }
    // another error makes another parse
    match errors.pop() {
        None => errors.push(("message 0".into(), 0)),
        Some((m, at)) => match r.below(3) {
            0 => (),
            1 => errors.push((m + "x", at)),
            _ => errors.push((m, at + 1)),
        },
    }
    if p == finish(&tree, &errors) {
        return Err("two parses with different errors are equal".into());
    }
    c.count("trees built", 1);
    Ok(())
}

fn case(r: &mut Rng, c: &mut Case) -> Result<(), String> {
    let t = text(r);
    c.input(&t);
    let p = SourceFile::parse(&t);
    let root = p.syntax_node();
    let typed = all(&root, c)?;
    if p.tree().syntax() != &p.tree().syntax().clone() || p.tree().syntax().text().to_string() != t {
        return Err("the tree of the parse does not hold the text".into());
    }
    dump(&p.debug_dump(), &root, p.errors())?;
    match p.clone().ok() {
        Ok(f) if p.errors().is_empty() && f.syntax().text().to_string() == t => (),
        Err(e) if !p.errors().is_empty() && e.as_slice() == p.errors() => (),
        r => return Err(format!("ok() is {:?} with {} errors", r.map(|_| "a tree").map_err(|e| e.len()), p.errors().len())),
    }
    let again = SourceFile::parse(&t);
    if again != p || p.clone() != p {
        return Err("two parses of one text, or one and its copy, are not equal".into());
    }
    let other = SourceFile::parse(&format!("{} ", t));
    if other == p {
        return Err("the parses of two texts are equal".into());
    }
    if p.clone().to_syntax().cast::<ast::ScriptDef>().is_some() {
        return Err("the parse of a file was cast to one of a script".into());
    }
    match p.clone().to_syntax().cast::<SourceFile>() {
        Some(q) if q == p => (),
        _ => return Err("the parse of a file, cast and cast back, is not the same".into()),
    }
    if typed > 0 {
        c.nontrivial(&t);
    }
    c.count("typed nodes", typed as u64);
    c.sample(json!({ "text": t }));
    Ok(())
}

fn p25(ctx: &mut Ctx) {
    ctx.cases("kinds", 1, |_, c| {
        let last = SyntaxKind::__LAST as u16;
        for i in 0..=last {
            let k = SyntaxKind::from(i);
            if u16::from(k) != i || k as u16 != i {
                return Err(format!("kind {} becomes {:?} and {}", i, k, u16::from(k)));
            }
            if k.is_trivia() != (k == WHITESPACE || k == COMMENT) {
                return Err(format!("{:?} is trivia: {}", k, k.is_trivia()));
            }
            let name = format!("{:?}", k);
            let keyword = reflex::KEYWORDS.iter().any(|x| x.1 == name);
            let punct = ["AMP_MUT", "WILDCARD"].contains(&&name[..]) || reflex::FIXED.iter().any(|x| x.1 == name);
            let literal = ["INTEGER_NUMBER", "BYTE_STRING", "HEX_STRING"].contains(&&name[..]);
            if (k.is_keyword(), k.is_punct(), k.is_literal()) != (keyword, punct, literal) {
                return Err(format!(
                    "{}: keyword {}, punctuation {}, literal {}", name, k.is_keyword(), k.is_punct(), k.is_literal()
                ));
            }
            c.count("kinds", 1);
        }
        for (w, name) in reflex::KEYWORDS {
            for v in [w.to_string(), w.to_uppercase(), format!("{}_", w), format!(" {}", w), w[1..].to_string()] {
                let want = reflex::KEYWORDS.iter().find(|x| x.0 == v).map(|x| x.1.to_string());
                let got = SyntaxKind::from_keyword(&v).map(|k| format!("{:?}", k));
                if got != want {
                    return Err(format!("the word {:?} ({}) is {:?}", v, name, got));
                }
            }
        }
        for ch in (0..0x3000).filter_map(char::from_u32) {
            let s = ch.to_string();
            let want = if ch == '_' { Some("WILDCARD") } else { reflex::FIXED.iter().find(|x| x.0 == s).map(|x| x.1) };
            let got = SyntaxKind::from_char(ch).map(|k| format!("{:?}", k));
            if got.as_deref() != want {
                return Err(format!("the character {:?} is {:?}", ch, got));
            }
        }
        for i in [last + 1, last + 2, 0x7fff, 0xffff] {
            let r = std::panic::catch_unwind(|| SyntaxKind::from(i) as u16);
            crate::panics::take();
            if r.is_ok() {
                return Err(format!("{} became a syntax kind", i));
            }
        }
        Ok(())
    });
    let n = ctx.scaled(12_000, 1_000_000);
    ctx.cases("views", n, case);
    let n = ctx.scaled(20_000, 2_000_000);
    ctx.cases("built", n, built);
    for side in ["left", "right"] {
        let n = ctx.scaled(64, 1000);
        ctx.cases(&format!("{} operand", side), n, |r, c| {
            let (all, left, right) = operands(r, 3);
            let t = format!("script {{ fun f() {{ {}; }} }}", all);
            c.input(&t);
            let p = SourceFile::parse(&t);
            let b = p.syntax_node().descendants().find_map(ast::BinExpr::cast).ok_or("there is no BIN_EXPR")?;
            let text = |e: Option<ast::Expr>| e.map(|e| e.to_string()).unwrap_or_default();
            c.nontrivial(&format!("{} {}", side, t));
            if side == "left" {
                return if text(b.lhs()) == left { Ok(()) } else { Err(format!("lhs() of {} is {:?}", all, text(b.lhs()))) };
            }
            match text(b.rhs()) {
                e if e == right && all != left => Ok(()),
                e if e == left => Err(format!("rhs() of a binary expression is its left operand: {}", all)),
                e => Err(format!("rhs() of {} is {:?}", all, e)),
            }
        });
    }
}
