//! Token-level view of generated Rust text: the items of module `xdr`.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Item {
    pub toks: Vec<String>,
}

/// Rust tokens; comments and white space dropped.
pub fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            let mut d = 1;
            i += 2;
            while i < c.len() && d > 0 {
                if c[i] == '*' && c.get(i + 1) == Some(&'/') {
                    d -= 1;
                    i += 2;
                } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
                    d += 1;
                    i += 2;
                } else {
                    i += 1
                }
            }
        } else if ch == '"' {
            let st = i;
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1
                }
                i += 1;
            }
            i = (i + 1).min(c.len());
            o.push(c[st..i].iter().collect());
        } else if ch == '\'' {
            // lifetime or character
            let st = i;
            if c.get(i + 1) == Some(&'\\') {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1
                }
                i += 1;
            } else if c.get(i + 2) == Some(&'\'') {
                i += 3;
            } else {
                i += 1;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1
                }
            }
            o.push(c[st..i.min(c.len())].iter().collect());
        } else if ch.is_alphanumeric() || ch == '_' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1
            }
            o.push(c[st..i].iter().collect());
        } else {
            o.push(ch.to_string());
            i += 1;
        }
    }
    o
}

/// Items of the outermost `mod xdr { ... }`, each with its attributes.
pub fn items(text: &str) -> Result<Vec<Item>, String> {
    let t = tokens(text);
    let st = t
        .windows(3)
        .position(|w| w[0] == "mod" && w[1] == "xdr" && w[2] == "{")
        .ok_or("no module xdr in the output")?
        + 3;
    let mut o = vec![];
    let mut cur: Vec<String> = vec![];
    let mut depth = 0i32;
    let mut i = st;
    while i < t.len() {
        let x = t[i].as_str();
        if depth == 0 && x == "}" {
            if !cur.is_empty() {
                return Err(format!("incomplete item {}", cur.join(" ")));
            }
            return Ok(o);
        }
        cur.push(t[i].clone());
        match x {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => {}
        }
        if depth == 0 && x == "]" && cur.len() > 2 && cur[0] == "#" && cur[1] == "!" {
            cur.clear(); // inner attribute
        }
        let end = depth == 0 && (x == ";" || x == "}");
        if end {
            // `struct X(..);` ends with the semicolon, blocks with the brace
            o.push(Item { toks: std::mem::take(&mut cur) });
        }
        i += 1;
    }
    Err("module xdr is not closed".into())
}

impl Item {
    /// position behind attributes
    fn start(&self) -> usize {
        let mut i = 0;
        while self.toks.get(i).map_or(false, |x| x == "#") {
            let mut d = 0;
            i += 1;
            while i < self.toks.len() {
                match self.toks[i].as_str() {
                    "[" => d += 1,
                    "]" => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
            i += 1;
        }
        i
    }
    /// ("struct"|"enum"|"impl"|"const"|..., name)
    pub fn kind(&self) -> (String, String) {
        let t = &self.toks[self.start()..];
        let mut k = 0;
        if t.get(0).map_or(false, |x| x == "pub") {
            k = 1;
            if t.get(1).map_or(false, |x| x == "(") {
                k = t.iter().position(|x| x == ")").unwrap() + 1;
            }
        }
        (t.get(k).cloned().unwrap_or_default(), t.get(k + 1).cloned().unwrap_or_default())
    }
    /// Tokens between the name of a struct/enum and its body: generics + where.
    pub fn generics(&self) -> Vec<String> {
        let s = self.start();
        let t = &self.toks[s..];
        let (k, n) = self.kind();
        let at = t.iter().position(|x| *x == k).unwrap();
        debug_assert!(t[at + 1] == n);
        let mut o = vec![];
        if t.get(at + 2).map_or(false, |x| x == "<") {
            let mut d = 0;
            for x in &t[at + 2..] {
                o.push(x.clone());
                match x.as_str() {
                    "<" => d += 1,
                    ">" => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
            }
        }
        o
    }
    /// For `impl TRAIT for TYPE {`: (trait tokens, type tokens).
    pub fn impl_of(&self) -> Option<(String, String)> {
        let t = &self.toks[self.start()..];
        if t.first().map_or(true, |x| x != "impl") {
            return None;
        }
        let f = t.iter().position(|x| x == "for")?;
        let b = t.iter().position(|x| x == "{")?;
        if f > b {
            return None;
        }
        Some((t[1..f].concat(), t[f + 1..b].concat()))
    }
    /// Field names of a braced struct in textual order.
    pub fn fields(&self) -> Vec<String> {
        let t = &self.toks[self.start()..];
        let mut o = vec![];
        let mut d = 0;
        let open = match t.iter().position(|x| x == "{") {
            Some(i) => i,
            None => return o,
        };
        for i in open..t.len() {
            match t[i].as_str() {
                "{" | "(" | "[" | "<" => d += 1,
                "}" | ")" | "]" | ">" => d -= 1,
                ":" if d == 1 && t[i - 1] != ":" && t.get(i + 1).map_or(true, |x| x != ":") => o.push(t[i - 1].clone()),
                _ => {}
            }
        }
        o
    }
}
