//! Reference recogniser: decides whether a token sequence is a program, finds the
//! first token at which no program can go on, and builds the tree of a program as
//! an S-expression. One rule per function; stops at the first error.
use crate::reflex::Tok;

pub struct Outcome {
    /// nested deeper than this recogniser cares for: no verdict
    pub gave_up: bool,
    /// index (into the significant tokens) of the first token that does not fit
    pub error_at: Option<usize>,
    pub sexpr: String,
}

struct P<'a> {
    src: &'a str,
    toks: &'a [Tok],
    at: usize,
    out: Vec<Ev>,
    depth: usize,
    gave_up: bool,
}

enum Ev {
    Open(&'static str),
    Close,
    Leaf(&'static str, usize),
}

type R = Result<(), ()>;

pub fn parse(src: &str, toks: &[Tok]) -> Outcome {
    let mut p = P { src, toks, at: 0, out: vec![], depth: 0, gave_up: false };
    let r = p.file();
    let error_at = if r.is_err() { Some(p.at) } else { None };
    Outcome { gave_up: p.gave_up, error_at, sexpr: if r.is_ok() { p.render() } else { String::new() } }
}

pub const MAX_DEPTH: usize = 200;

impl<'a> P<'a> {
    fn kind(&self) -> &'static str {
        self.toks.get(self.at).map_or("EOF", |t| t.kind)
    }
    fn kind_after(&self) -> &'static str {
        self.toks.get(self.at + 1).map_or("EOF", |t| t.kind)
    }
    fn text(&self) -> &'a str {
        self.toks.get(self.at).map_or("", |t| t.text(self.src))
    }
    fn is(&self, k: &str) -> bool {
        self.kind() == k
    }
    fn take_as(&mut self, kind: &'static str) {
        self.out.push(Ev::Leaf(kind, self.at));
        self.at += 1;
    }
    fn take(&mut self) {
        let k = self.kind();
        self.take_as(k)
    }
    fn eat(&mut self, k: &str) -> bool {
        if self.is(k) {
            self.take();
            true
        } else {
            false
        }
    }
    fn need(&mut self, k: &str) -> R {
        if self.eat(k) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn node(&mut self, k: &'static str, f: impl FnOnce(&mut Self) -> R) -> R {
        self.out.push(Ev::Open(k));
        f(self)?;
        self.out.push(Ev::Close);
        Ok(())
    }
    /// Wraps what was written since `mark` into a new node.
    fn wrap(&mut self, mark: usize, k: &'static str) {
        self.out.insert(mark, Ev::Open(k));
    }
    fn close(&mut self) {
        self.out.push(Ev::Close);
    }
    fn render(&self) -> String {
        let mut s = String::new();
        for e in &self.out {
            match e {
                Ev::Open(k) => {
                    s.push_str(" (");
                    s.push_str(k);
                }
                Ev::Close => s.push(')'),
                Ev::Leaf(k, i) => {
                    s.push(' ');
                    s.push_str(k);
                    s.push('`');
                    s.push_str(self.toks[*i].text(self.src));
                    s.push('`');
                }
            }
        }
        s.trim_start().to_string()
    }

    // items -----------------------------------------------------------------

    fn file(&mut self) -> R {
        self.node("SOURCE_FILE", |p| {
            loop {
                match p.kind() {
                    "EOF" => return Ok(()),
                    "MODULE_KW" => p.module()?,
                    "SCRIPT_KW" => p.node("SCRIPT_DEF", |p| {
                        p.take();
                        p.body_or_semi()
                    })?,
                    "ADDRESS_KW" => p.node("ADDRESS_DEF", |p| {
                        p.take();
                        p.address_ident()?;
                        p.node("ADDRESS_ITEM_LIST", |p| {
                            p.need("L_BRACE")?;
                            while p.is("MODULE_KW") {
                                p.module()?;
                            }
                            p.need("R_BRACE")
                        })
                    })?,
                    _ => return Err(()),
                }
            }
        })
    }
    fn module(&mut self) -> R {
        self.node("MODULE_DEF", |p| {
            p.need("MODULE_KW")?;
            if p.kind_after() == "COLON_COLON" {
                p.address_ident()?;
                p.need("COLON_COLON")?;
            }
            p.name("NAME")?;
            p.body_or_semi()
        })
    }
    fn address_ident(&mut self) -> R {
        self.node("ADDRESS_IDENT", |p| p.address())
    }
    fn address(&mut self) -> R {
        match self.kind() {
            "IDENT" => self.take(),
            "INTEGER_NUMBER" if self.text().starts_with("0x") => self.take_as("DIEM_ADDRESS"),
            _ => return Err(()),
        }
        Ok(())
    }
    fn name(&mut self, node: &'static str) -> R {
        if !self.is("IDENT") {
            return Err(());
        }
        self.node(node, |p| p.need("IDENT"))
    }
    fn body_or_semi(&mut self) -> R {
        match self.kind() {
            "SEMICOLON" => {
                self.take();
                Ok(())
            }
            "L_BRACE" => self.node("ITEM_LIST", |p| {
                p.take();
                loop {
                    match p.kind() {
                        "FUN_KW" => p.function()?,
                        "STRUCT_KW" => p.structure()?,
                        _ => break,
                    }
                }
                p.need("R_BRACE")
            }),
            _ => Err(()),
        }
    }
    /// `open` elem (`,` elem)* `,`? `close`
    fn list(
        &mut self,
        node: &'static str,
        open: &str,
        close: &str,
        mut elem: impl FnMut(&mut Self) -> R,
    ) -> R {
        self.node(node, |p| {
            p.need(open)?;
            while !p.is(close) {
                elem(p)?;
                if !p.is(close) {
                    p.need("COMMA")?;
                }
            }
            p.need(close)
        })
    }
    fn function(&mut self) -> R {
        self.node("FUNCTION_DEF", |p| {
            p.need("FUN_KW")?;
            p.name("NAME")?;
            p.list("PARAM_LIST", "L_PAREN", "R_PAREN", |p| {
                if !p.is("IDENT") {
                    return Err(());
                }
                p.node("PARAM", |p| {
                    p.name("NAME")?;
                    p.need("COLON")?;
                    p.ty()
                })
            })?;
            if p.is("COLON") {
                p.node("RET_TYPE", |p| {
                    p.take();
                    p.ty()
                })?;
            }
            if !p.is("L_BRACE") {
                return Err(());
            }
            p.block()
        })
    }
    fn structure(&mut self) -> R {
        self.node("STRUCT", |p| {
            p.need("STRUCT_KW")?;
            p.name("NAME")?;
            if p.is("LT") {
                p.list("GENERIC_PARAM_LIST", "LT", "GT", |p| {
                    if !p.is("IDENT") {
                        return Err(());
                    }
                    p.node("TYPE_PARAM", |p| {
                        p.name("NAME")?;
                        if p.eat("COLON") {
                            p.node("TYPE_BOUND_LIST", |p| {
                                while p.is("IDENT") {
                                    p.node("TYPE_BOUND", |p| p.name("NAME"))?;
                                    if !p.eat("PLUS") {
                                        break;
                                    }
                                }
                                Ok(())
                            })?;
                        }
                        Ok(())
                    })
                })?;
            }
            match p.kind() {
                "SEMICOLON" => p.need("SEMICOLON"),
                "L_BRACE" => p.list("RECORD_FIELD_LIST", "L_BRACE", "R_BRACE", |p| {
                    if !p.is("IDENT") {
                        return Err(());
                    }
                    p.node("RECORD_FIELD", |p| {
                        p.name("NAME")?;
                        p.need("COLON")?;
                        p.ty()
                    })
                }),
                _ => Err(()),
            }
        })
    }

    // types and paths ---------------------------------------------------------

    fn deeper(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.depth += 1;
        if self.depth >= MAX_DEPTH {
            self.gave_up = true;
            return Err(());
        }
        let r = f(self);
        self.depth -= 1;
        r
    }
    fn ty(&mut self) -> R {
        match self.kind() {
            "AMP" | "AMP_MUT" => self.deeper(|p| {
                p.node("REF_TYPE", |p| {
                    if !p.eat("AMP_MUT") {
                        p.need("AMP")?;
                        p.eat("MUT_KW");
                    }
                    p.ty()
                })
            }),
            "IDENT" => self.node("PATH_TYPE", |p| p.path()),
            _ => Err(()),
        }
    }
    fn path(&mut self) -> R {
        let mark = self.out.len();
        self.node("PATH", |p| p.node("PATH_SEGMENT", |p| p.name("NAME_REF")))?;
        while self.is("COLON_COLON") && !matches!(self.kind_after(), "STAR" | "L_BRACE") {
            self.wrap(mark, "PATH");
            self.take();
            self.node("PATH_SEGMENT", |p| p.name("NAME_REF"))?;
            self.close();
        }
        Ok(())
    }

    // patterns ----------------------------------------------------------------

    fn pattern(&mut self) -> R {
        match self.kind() {
            "IDENT" if self.kind_after() == "L_BRACE" => self.deeper(|p| {
                p.node("RECORD_PAT", |p| {
                    p.path()?;
                    p.list("RECORD_PAT_FIELD_LIST", "L_BRACE", "R_BRACE", |p| {
                        if !matches!(p.kind(), "IDENT" | "MUT_KW") {
                            return Err(());
                        }
                        p.node("RECORD_PAT_FIELD", |p| {
                            if p.is("IDENT") && p.kind_after() == "COLON" {
                                p.name("NAME_REF")?;
                                p.take();
                                p.pattern()
                            } else {
                                p.ident_pat()
                            }
                        })
                    })
                })
            }),
            "IDENT" | "MUT_KW" => self.ident_pat(),
            "L_PAREN" => self.deeper(|p| {
                let mark = p.out.len();
                p.take();
                let mut elems = 0;
                let mut commas = 0;
                while !p.is("R_PAREN") {
                    elems += 1;
                    p.pattern()?;
                    if !p.is("R_PAREN") {
                        p.need("COMMA")?;
                        commas += 1;
                    }
                }
                p.need("R_PAREN")?;
                p.wrap(mark, if elems == 1 && commas == 0 { "PAREN_PAT" } else { "TUPLE_PAT" });
                p.close();
                Ok(())
            }),
            _ => Err(()),
        }
    }
    fn ident_pat(&mut self) -> R {
        self.node("IDENT_PAT", |p| {
            p.eat("MUT_KW");
            p.name("NAME")
        })
    }

    // statements and expressions ------------------------------------------------

    fn block(&mut self) -> R {
        self.node("BLOCK_EXPR", |p| {
            p.need("L_BRACE")?;
            while !p.is("R_BRACE") {
                p.statement()?;
            }
            p.need("R_BRACE")
        })
    }
    fn statement(&mut self) -> R {
        if self.is("LET_KW") {
            self.node("LET_STMT", |p| {
                p.take();
                p.pattern()?;
                if p.eat("COLON") {
                    p.ty()?;
                }
                if p.eat("EQ") {
                    p.expr(0)?;
                }
                p.eat("SEMICOLON");
                Ok(())
            })
        } else {
            self.node("EXPR_STMT", |p| {
                p.expr(0)?;
                p.eat("SEMICOLON");
                Ok(())
            })
        }
    }
    /// All binary operators are left associative; `level` is the level of the
    /// weakest operator allowed.
    fn expr(&mut self, level: usize) -> R {
        self.deeper(|p| {
            let mark = p.out.len();
            p.operand()?;
            while let Some(l) = LEVELS.iter().position(|ops| ops.contains(&p.kind())) {
                if l < level {
                    break;
                }
                p.wrap(mark, "BIN_EXPR");
                p.take();
                p.expr(l + 1)?;
                p.close();
            }
            Ok(())
        })
    }
    fn operand(&mut self) -> R {
        if matches!(self.kind(), "STAR" | "BANG" | "MINUS") {
            return self.node("PREFIX_EXPR", |p| {
                p.take();
                p.expr(LEVELS.len())
            });
        }
        let mark = self.out.len();
        self.atom()?;
        loop {
            match self.kind() {
                "L_PAREN" => {
                    self.wrap(mark, "CALL_EXPR");
                    self.list("ARG_LIST", "L_PAREN", "R_PAREN", |p| p.expr(0))?;
                    self.close();
                }
                "DOT" => {
                    self.wrap(mark, "DOT_EXPR");
                    self.take();
                    self.name("NAME_REF")?;
                    self.close();
                }
                _ => return Ok(()),
            }
        }
    }
    fn atom(&mut self) -> R {
        match self.kind() {
            "TRUE_KW" | "FALSE_KW" | "INTEGER_NUMBER" | "BYTE_STRING" | "HEX_STRING" => {
                self.node("LITERAL", |p| {
                    p.take();
                    Ok(())
                })
            }
            "ATSIGN" => self.node("LITERAL", |p| {
                p.node("ADDRESS_LIT", |p| {
                    p.take();
                    p.address()
                })
            }),
            "IDENT" => {
                let mark = self.out.len();
                self.path()?;
                if self.is("L_BRACE") {
                    self.list("RECORD_EXPR_FIELD_LIST", "L_BRACE", "R_BRACE", |p| {
                        if !matches!(p.kind(), "IDENT" | "INTEGER_NUMBER") {
                            return Err(());
                        }
                        p.node("RECORD_EXPR_FIELD", |p| {
                            if p.kind_after() == "COLON" {
                                p.name("NAME_REF")?;
                                p.take();
                            }
                            p.expr(0)
                        })
                    })?;
                    self.wrap(mark, "RECORD_EXPR");
                } else {
                    self.wrap(mark, "PATH_EXPR");
                }
                self.close();
                Ok(())
            }
            "L_PAREN" => self.list("PAREN_EXPR", "L_PAREN", "R_PAREN", |p| p.expr(0)),
            "L_BRACE" => self.block(),
            _ => Err(()),
        }
    }
}

/// Binary operators, from the weakest to the strongest.
pub const LEVELS: &[&[&str]] = &[
    &["EQ"],
    &["LT", "GT"],
    &["PIPE"],
    &["CARET"],
    &["AMP"],
    &["PLUS", "MINUS"],
    &["STAR", "SLASH", "MOD"],
];
