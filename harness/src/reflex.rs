//! Reference lexer: a table of token definitions, each matched on its own; the
//! longest match wins. Written from the token definitions of the language, it
//! shares no code and no structure with the lexer under test.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: &'static str,
    pub start: usize,
    pub end: usize,
}

impl Tok {
    pub fn is_trivia(&self) -> bool {
        self.kind == "WHITESPACE" || self.kind == "COMMENT"
    }
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.start..self.end]
    }
}

pub const FIXED: &[(&str, &str)] = &[
    ("(", "L_PAREN"),
    (")", "R_PAREN"),
    ("{", "L_BRACE"),
    ("}", "R_BRACE"),
    ("[", "L_BRACK"),
    ("]", "R_BRACK"),
    (",", "COMMA"),
    (";", "SEMICOLON"),
    (":", "COLON"),
    ("::", "COLON_COLON"),
    (".", "DOT"),
    ("..", "DOTDOT"),
    ("+", "PLUS"),
    ("-", "MINUS"),
    ("*", "STAR"),
    ("/", "SLASH"),
    ("%", "MOD"),
    ("^", "CARET"),
    ("#", "NUMSIGN"),
    ("@", "ATSIGN"),
    ("&", "AMP"),
    ("&&", "AMP_AMP"),
    ("|", "PIPE"),
    ("||", "PIPE_PIPE"),
    ("!", "BANG"),
    ("!=", "BANG_EQ"),
    ("=", "EQ"),
    ("==", "EQ_EQ"),
    ("==>", "EQ_EQ_GT"),
    (">", "GT"),
    (">>", "GT_GT"),
    (">=", "GT_EQ"),
    ("<", "LT"),
    ("<<", "LT_LT"),
    ("<=", "LT_EQ"),
    ("<==>", "LT_EQ_EQ_GT"),
];

pub const KEYWORDS: &[(&str, &str)] = &[
    ("struct", "STRUCT_KW"),
    ("script", "SCRIPT_KW"),
    ("module", "MODULE_KW"),
    ("const", "CONST_KW"),
    ("use", "USE_KW"),
    ("as", "AS_KW"),
    ("let", "LET_KW"),
    ("mut", "MUT_KW"),
    ("return", "RETURN_KW"),
    ("fun", "FUN_KW"),
    ("true", "TRUE_KW"),
    ("false", "FALSE_KW"),
    ("move", "MOVE_KW"),
    ("while", "WHILE_KW"),
    ("if", "IF_KW"),
    ("else", "ELSE_KW"),
    ("break", "BREAK_KW"),
    ("continue", "CONTINUE_KW"),
    ("address", "ADDRESS_KW"),
];

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

fn run(s: &[u8], f: impl Fn(u8) -> bool) -> usize {
    let mut n = 0;
    while n < s.len() && f(s[n]) {
        n += 1;
    }
    n
}

fn suffix(s: &[u8]) -> usize {
    for suf in [&b"u128"[..], b"u64", b"u8"] {
        if s.starts_with(suf) {
            return suf.len();
        }
    }
    0
}

fn whitespace(s: &[u8]) -> usize {
    run(s, |b| b == b' ' || b == b'\t' || b == b'\n')
}
fn comment(s: &[u8]) -> usize {
    if !s.starts_with(b"//") {
        return 0;
    }
    let n = run(s, |b| b != b'\n');
    (n + 1).min(s.len())
}
fn word(s: &[u8]) -> usize {
    if s.is_empty() || s[0].is_ascii_digit() {
        return 0;
    }
    run(s, is_word)
}
fn decimal(s: &[u8]) -> usize {
    let n = run(s, |b| b.is_ascii_digit());
    if n == 0 {
        return 0;
    }
    n + suffix(&s[n..])
}
fn hexadecimal(s: &[u8]) -> usize {
    if !s.starts_with(b"0x") {
        return 0;
    }
    let n = 2 + run(&s[2..], |b| b.is_ascii_hexdigit());
    let n2 = n + suffix(&s[n..]);
    if n2 == 2 {
        0
    } else {
        n2
    }
}
/// (closed, length)
fn bytes(s: &[u8]) -> (bool, usize) {
    if !(s.starts_with(b"b\"") || s.starts_with(b"x\"")) {
        return (false, 0);
    }
    // the literal ends on its line; a line ends with \n or \r\n
    let nl = run(s, |b| b != b'\n');
    let line = if nl < s.len() && nl > 0 && s[nl - 1] == b'\r' { &s[..nl - 1] } else { &s[..nl] };
    let mut i = 2;
    while i < line.len() {
        match line[i] {
            b'"' => return (true, i + 1),
            b'\\' => i += 2, // the escaped character; a multi-byte one has no byte that matters here
            _ => i += 1,
        }
    }
    (false, line.len())
}
fn amp_mut(s: &[u8]) -> usize {
    if s.starts_with(b"&mut") && !s.get(4).copied().map_or(false, is_word) {
        4
    } else {
        0
    }
}

fn next(src: &str, at: usize) -> (&'static str, usize) {
    let s = &src.as_bytes()[at..];
    let mut best: (&'static str, usize) = ("", 0);
    let mut offer = |kind: &'static str, len: usize| {
        if len > best.1 {
            best = (kind, len)
        }
    };
    offer("WHITESPACE", whitespace(s));
    offer("COMMENT", comment(s));
    for &(text, kind) in FIXED {
        if s.starts_with(text.as_bytes()) {
            offer(kind, text.len());
        }
    }
    offer("AMP_MUT", amp_mut(s));
    let (closed, n) = bytes(s);
    offer(if closed { "BYTE_STRING" } else { "ERROR" }, n);
    let w = word(s);
    let kw = KEYWORDS.iter().find(|(t, _)| t.len() == w && s.starts_with(t.as_bytes()));
    offer(kw.map_or("IDENT", |k| k.1), w);
    offer("INTEGER_NUMBER", decimal(s).max(hexadecimal(s)));
    if best.1 == 0 {
        let c = src[at..].chars().next().unwrap();
        best = ("ERROR", c.len_utf8());
    }
    best
}

pub fn lex(src: &str) -> Vec<Tok> {
    let mut res = Vec::new();
    let mut at = 0;
    while at < src.len() {
        let (kind, len) = next(src, at);
        res.push(Tok { kind, start: at, end: at + len });
        at += len;
    }
    res
}

/// The tokens without whitespace and comments.
pub fn lex_significant(src: &str) -> Vec<Tok> {
    lex(src).into_iter().filter(|t| !t.is_trivia()).collect()
}
