//! What is read off the tree the real parser builds.
use rowan::{NodeOrToken, WalkEvent};
use syntax::syntax_node::SyntaxNode;
use syntax::SyntaxKind;

pub struct Leaf {
    pub kind: SyntaxKind,
    pub start: usize,
    pub end: usize,
}

pub struct Facts {
    /// without whitespace and comments, in the format of `gen` and `refparse`
    pub sexpr: String,
    pub leaves: Vec<Leaf>,
    /// concatenated leaf texts
    pub text: String,
    pub nodes: usize,
    pub depth: usize,
    /// a node range that is not the union of its children's, or leaves out of order
    pub broken: Option<String>,
    /// there is an ERROR node or token
    pub has_error_kind: bool,
}

pub fn is_trivia(k: SyntaxKind) -> bool {
    matches!(k, SyntaxKind::WHITESPACE | SyntaxKind::COMMENT)
}

pub fn kind_name(k: SyntaxKind) -> String {
    format!("{:?}", k)
}

pub fn facts(root: &SyntaxNode) -> Facts {
    let mut f = Facts {
        sexpr: String::new(),
        leaves: vec![],
        text: String::new(),
        nodes: 0,
        depth: 0,
        broken: None,
        has_error_kind: false,
    };
    let mut at = 0usize;
    // where each open node began
    let mut open: Vec<usize> = vec![];
    for ev in root.preorder_with_tokens() {
        match ev {
            WalkEvent::Enter(NodeOrToken::Node(n)) => {
                let s = usize::from(n.text_range().start());
                if s != at {
                    f.broken.get_or_insert(format!("node {:?} starts at {}, text is at {}", n.kind(), s, at));
                }
                open.push(at);
                f.nodes += 1;
                f.depth = f.depth.max(open.len());
                if n.kind() == SyntaxKind::ERROR {
                    f.has_error_kind = true;
                }
                f.sexpr.push_str(" (");
                f.sexpr.push_str(&kind_name(n.kind()));
            }
            WalkEvent::Leave(NodeOrToken::Node(n)) => {
                let e = usize::from(n.text_range().end());
                if e != at {
                    f.broken.get_or_insert(format!("node {:?} ends at {}, text is at {}", n.kind(), e, at));
                }
                open.pop();
                f.sexpr.push(')');
            }
            WalkEvent::Enter(NodeOrToken::Token(t)) => {
                let r = t.text_range();
                let (s, e) = (usize::from(r.start()), usize::from(r.end()));
                if s != at || e - s != t.text().len() {
                    f.broken.get_or_insert(format!("token {:?} is at {}..{}, text is at {}", t.kind(), s, e, at));
                }
                at = e;
                f.text.push_str(t.text());
                if t.kind() == SyntaxKind::ERROR {
                    f.has_error_kind = true;
                }
                if !is_trivia(t.kind()) {
                    f.sexpr.push(' ');
                    f.sexpr.push_str(&kind_name(t.kind()));
                    f.sexpr.push('`');
                    f.sexpr.push_str(t.text());
                    f.sexpr.push('`');
                }
                f.leaves.push(Leaf { kind: t.kind(), start: s, end: e });
            }
            WalkEvent::Leave(NodeOrToken::Token(_)) => (),
        }
    }
    f.sexpr = f.sexpr.trim_start().to_string();
    f
}

pub struct Parsed {
    pub facts: Facts,
    /// (message, start, end)
    pub errors: Vec<(String, usize, usize)>,
}

pub fn parse(text: &str) -> Parsed {
    let p = syntax::SourceFile::parse(text);
    let errors = p
        .errors()
        .iter()
        .map(|e| (e.to_string(), usize::from(e.range().start()), usize::from(e.range().end())))
        .collect();
    Parsed { facts: facts(&p.syntax_node()), errors }
}

/// First place where two strings differ, with some context.
pub fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let from = n.saturating_sub(60);
        let to = (n + 100).min(s.len());
        String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..to]).into_owned()
    };
    format!("…{}… and …{}…", cut(a), cut(b))
}
