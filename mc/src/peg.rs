//! An independent recogniser of the grammar's language: does a text consist of
//! XDR declarations? Hand-written recursive descent, ordered choice without
//! backtracking into an alternative that has succeeded, like the grammar.

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R = Option<()>;

impl<'a> P<'a> {
    fn lit(&mut self, t: &str) -> R {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Some(())
        } else {
            None
        }
    }
    /// Runs `f`, restores the position if it fails.
    fn attempt(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let i = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = i;
        }
        r
    }
    fn newline(&mut self) -> R {
        if self.lit("\n").is_some() || self.lit("\r\n").is_some() || self.lit("\r").is_some() {
            Some(())
        } else {
            None
        }
    }
    fn trivium(&mut self) -> R {
        if self.lit(" ").is_some() || self.lit("\t").is_some() || self.newline().is_some() {
            return Some(());
        }
        self.attempt(|p| {
            p.lit("/*")?;
            while p.i < p.s.len() && !p.s[p.i..].starts_with(b"*/") {
                p.i += 1;
            }
            p.lit("*/")
        })
        .or_else(|| {
            self.lit("//")?;
            while self.i < self.s.len() && self.s[self.i] != b'\n' && self.s[self.i] != b'\r' {
                self.i += 1;
            }
            Some(())
        })
    }
    fn skip(&mut self) {
        while self.trivium().is_some() {}
    }
    fn gap(&mut self) -> R {
        self.trivium()?;
        self.skip();
        Some(())
    }
    fn basic_type(&mut self) -> R {
        self.attempt(|p| {
            let _ = p.attempt(|p| {
                p.lit("unsigned")?;
                p.gap()
            });
            if p.lit("int").is_none() {
                p.lit("hyper")?;
            }
            p.gap()
        })
        .or_else(|| {
            self.attempt(|p| {
                for t in ["float", "double", "string", "opaque"] {
                    if p.lit(t).is_some() {
                        return p.gap();
                    }
                }
                None
            })
        })
    }
    fn word(&mut self) -> R {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        if self.i > st {
            Some(())
        } else {
            None
        }
    }
    fn ident(&mut self) -> R {
        let i = self.i;
        if self.basic_type().is_some() {
            self.i = i;
            return None;
        }
        self.word()
    }
    fn ty(&mut self) -> R {
        if self.ident().is_some() {
            return Some(());
        }
        self.basic_type()
    }
    fn number(&mut self) -> R {
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        if self.i > st {
            Some(())
        } else {
            None
        }
    }
    fn number_or_ident(&mut self) -> R {
        if self.number().is_some() {
            return Some(());
        }
        self.ident()
    }
    fn array(&mut self) -> R {
        self.attempt(|p| {
            p.lit("<")?;
            p.skip();
            let _ = p.attempt(|p| p.number_or_ident());
            p.skip();
            p.lit(">")
        })
        .or_else(|| {
            self.attempt(|p| {
                p.lit("[")?;
                p.skip();
                p.number_or_ident()?;
                p.skip();
                p.lit("]")
            })
        })
    }
    fn data_field(&mut self) -> R {
        self.attempt(|p| {
            p.ty()?;
            p.skip();
            let opt = p.attempt(|p| {
                p.lit("*")?;
                p.skip();
                p.ident()
            });
            if opt.is_none() {
                p.ident()?;
            }
            p.skip();
            let _ = p.array();
            p.skip();
            p.lit(";")
        })
    }
    fn void(&mut self) -> R {
        self.attempt(|p| {
            p.lit("void")?;
            p.skip();
            p.lit(";")
        })
    }
    fn tokens(&mut self, l: &[&str]) -> R {
        for (k, t) in l.iter().enumerate() {
            if k > 0 {
                self.skip();
            }
            match *t {
                "IDENT" => self.ident()?,
                "TYPE" => self.ty()?,
                t => self.lit(t)?,
            }
        }
        Some(())
    }
    /// e*, trivia in between
    fn many(&mut self, f: impl Fn(&mut Self) -> R) {
        if self.attempt(&f).is_none() {
            return;
        }
        while self
            .attempt(|p| {
                p.skip();
                f(p)
            })
            .is_some()
        {}
    }
    fn declaration(&mut self) -> R {
        if self.attempt(|p| p.tokens(&["const", "IDENT", "=", "IDENT", ";"])).is_some() {
            return Some(());
        }
        let typedef = self.attempt(|p| {
            p.tokens(&["typedef", "TYPE", "IDENT"])?;
            p.skip();
            let _ = p.array();
            p.skip();
            p.lit(";")
        });
        if typedef.is_some() {
            return Some(());
        }
        let member = |p: &mut Self| p.tokens(&["IDENT", "=", "IDENT"]);
        let e = self.attempt(|p| {
            p.tokens(&["enum", "IDENT", "{"])?;
            p.skip();
            member(p)?;
            p.skip();
            p.many(member);
            p.skip();
            p.many(|p| {
                p.lit(",")?;
                p.skip();
                member(p)
            });
            p.skip();
            p.tokens(&["}", ";"])
        });
        if e.is_some() {
            return Some(());
        }
        let s = self.attempt(|p| {
            p.tokens(&["struct", "IDENT", "{"])?;
            p.skip();
            p.many(|p| p.data_field());
            p.skip();
            p.tokens(&["}", ";"])
        });
        if s.is_some() {
            return Some(());
        }
        self.attempt(|p| {
            p.tokens(&["union", "IDENT", "switch", "(", "TYPE", "IDENT", ")", "{"])?;
            p.skip();
            p.many(|p| {
                p.attempt(|p| {
                    p.lit("case")?;
                    p.skip();
                    p.number_or_ident()?;
                    p.skip();
                    p.lit(":")?;
                    p.skip();
                    if p.data_field().is_none() {
                        let _ = p.void();
                    }
                    Some(())
                })
                .or_else(|| {
                    p.tokens(&["default", ":"])?;
                    p.skip();
                    if p.data_field().is_some() {
                        return Some(());
                    }
                    p.void()
                })
            });
            p.skip();
            p.tokens(&["}", ";"])
        })
    }
}

/// True if the text is a sequence of declarations.
pub fn accepts(text: &str) -> bool {
    let mut p = P { s: text.as_bytes(), i: 0 };
    p.skip();
    p.many(|p| p.declaration());
    p.skip();
    p.i == p.s.len()
}
