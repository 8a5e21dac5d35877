//! A recogniser of the proto3 language, written from its published grammar.

/// What the language says about a text.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Verdict
{
    /// It is a file.
    Valid,
    /// It is not a file.
    Invalid,
    /// Published grammars and implementations differ, or the construct is outside what this
    /// library supports.
    Open,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T<'a>
{
    Word(&'a str),
    /// An integer, and whether it is too big for its usual place.
    Int(&'a str),
    Float,
    /// The text between the quotes.
    Str(&'a str),
    Punct(char),
    Bad,
}

struct Lexer<'a>
{
    toks: Vec<T<'a>>,
    /// There is something that the grammars differ on.
    open: bool,
}

fn lex(text: &str) -> Lexer
{
    let b = text.as_bytes();
    let mut l = Lexer { toks: vec![], open: false };
    let mut i = if text.starts_with('\u{feff}') { 3 } else { 0 };
    let word_start = |c: u8| c.is_ascii_alphabetic() || c == b'_';
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let digits = |mut i: usize| {
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    // The end of an exponent that starts at `i`, if there is one.
    let exponent = |i: usize| {
        if i >= b.len() || !matches!(b[i], b'e' | b'E') {
            return None;
        }
        let s = match b.get(i + 1) {
            Some(b'+') | Some(b'-') => i + 2,
            _ => i + 1,
        };
        match digits(s) {
            e if e > s => Some(e),
            _ => None,
        }
    };
    while i < b.len() {
        let c = b[i];
        let start = i;
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            0x0b | 0x0c => {
                l.open = true;
                i += 1;
            }
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if b.get(i + 1) == Some(&b'*') => match text[i + 2..].find("*/") {
                Some(n) => i += n + 4,
                None => {
                    l.toks.push(T::Bad);
                    break;
                }
            },
            _ if word_start(c) => {
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                l.open |= c == b'_';
                l.toks.push(T::Word(&text[start..i]));
            }
            _ if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |c| c.is_ascii_digit())) => {
                let mut float = false;
                i = digits(i);
                if b.get(i) == Some(&b'.') {
                    float = true;
                    i = digits(i + 1);
                }
                if let Some(e) = exponent(i) {
                    float = true;
                    i = e;
                }
                if !float {
                    i = start;
                    if c != b'0' {
                        i = digits(i);
                    } else if matches!(b.get(i + 1), Some(b'x') | Some(b'X'))
                        && b.get(i + 2).map_or(false, |c| c.is_ascii_hexdigit())
                    {
                        i += 2;
                        while i < b.len() && b[i].is_ascii_hexdigit() {
                            i += 1;
                        }
                    } else {
                        while i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                            i += 1;
                        }
                    }
                }
                l.toks.push(match float {
                    true => T::Float,
                    false => T::Int(&text[start..i]),
                });
                // A number and a word or number without space between them.
                l.open |= b.get(i).map_or(false, |c| word(*c) || *c == b'.');
            }
            b'"' | b'\'' => {
                i += 1;
                let mut ok = false;
                while i < b.len() {
                    match b[i] {
                        x if x == c => {
                            ok = true;
                            break;
                        }
                        b'\n' | 0 => break,
                        b'\\' => {
                            match b.get(i + 1) {
                                Some(b'x') | Some(b'X') => {
                                    let hex = |k: usize| b.get(k).map_or(false, |c| c.is_ascii_hexdigit());
                                    if !hex(i + 2) {
                                        break;
                                    }
                                    l.open |= !hex(i + 3);
                                }
                                Some(b'u') | Some(b'U') | Some(b'?') => l.open = true,
                                Some(b'4'..=b'7') => {
                                    // Above \377.
                                    let oct = |k: usize| b.get(k).map_or(false, |c| (b'0'..=b'7').contains(c));
                                    l.open |= oct(i + 2) && oct(i + 3);
                                }
                                Some(b'0'..=b'3') => {}
                                Some(b'a') | Some(b'b') | Some(b'f') | Some(b'n') | Some(b'r') | Some(b't')
                                | Some(b'v') | Some(b'\\') | Some(b'\'') | Some(b'"') => {}
                                _ => break,
                            }
                            i += 2;
                        }
                        _ => i += 1,
                    }
                }
                if !ok {
                    l.toks.push(T::Bad);
                    break;
                }
                l.toks.push(T::Str(&text[start + 1..i]));
                i += 1;
            }
            b';' | b'{' | b'}' | b'[' | b']' | b'(' | b')' | b'<' | b'>' | b',' | b'=' | b'-' | b'+' | b'.' => {
                i += 1;
                l.toks.push(T::Punct(c as char));
            }
            _ => {
                l.toks.push(T::Bad);
                break;
            }
        }
    }
    l
}

enum Stop
{
    Invalid,
    Open,
}

type P = Result<(), Stop>;

struct Parser<'a>
{
    t: Vec<T<'a>>,
    i: usize,
    open: bool,
    depth: usize,
}

const SCALARS: [&str; 15] = [
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
    "sfixed64", "bool", "string", "bytes",
];
/// Words that start a statement or a field.
const STATEMENT: [&str; 12] = [
    "option", "enum", "message", "oneof", "map", "reserved", "extend", "extensions", "group", "repeated", "optional",
    "required",
];

fn value_of(s: &str) -> Option<u64>
{
    if s.len() > 2 && (s.starts_with("0x") || s.starts_with("0X")) {
        u64::from_str_radix(&s[2..], 16).ok()
    } else if s.len() > 1 && s.starts_with('0') {
        u64::from_str_radix(s, 8).ok()
    } else {
        s.parse().ok()
    }
}

impl<'a> Parser<'a>
{
    fn peek(&self) -> Option<T<'a>>
    {
        self.t.get(self.i).copied()
    }
    fn at(&self, c: char) -> bool
    {
        self.peek() == Some(T::Punct(c))
    }
    fn eat(&mut self, c: char) -> bool
    {
        let y = self.at(c);
        self.i += y as usize;
        y
    }
    fn need(&mut self, c: char) -> P
    {
        match self.eat(c) {
            true => Ok(()),
            false => Err(Stop::Invalid),
        }
    }
    fn at_word(&self, w: &str) -> bool
    {
        self.peek() == Some(T::Word(w))
    }
    fn eat_word(&mut self, w: &str) -> bool
    {
        let y = self.at_word(w);
        self.i += y as usize;
        y
    }
    fn need_word(&mut self, w: &str) -> P
    {
        match self.eat_word(w) {
            true => Ok(()),
            false => Err(Stop::Invalid),
        }
    }
    fn ident(&mut self) -> Result<&'a str, Stop>
    {
        match self.peek() {
            Some(T::Word(w)) => {
                self.i += 1;
                Ok(w)
            }
            _ => Err(Stop::Invalid),
        }
    }
    fn full_ident(&mut self) -> Result<&'a str, Stop>
    {
        let first = self.ident()?;
        while self.eat('.') {
            self.ident()?;
        }
        Ok(first)
    }
    fn string(&mut self) -> Result<&'a str, Stop>
    {
        match self.peek() {
            Some(T::Str(s)) => {
                self.i += 1;
                while let Some(T::Str(_)) = self.peek() {
                    self.i += 1;
                    self.open = true;
                }
                Ok(s)
            }
            _ => Err(Stop::Invalid),
        }
    }
    /// Runs `f`; if the text is not what it wants, goes back to the start.
    fn attempt(&mut self, f: impl FnOnce(&mut Self) -> P) -> Result<bool, Stop>
    {
        let (i, open, depth) = (self.i, self.open, self.depth);
        match f(self) {
            Ok(()) => Ok(true),
            Err(Stop::Open) => Err(Stop::Open),
            Err(Stop::Invalid) => {
                self.i = i;
                self.open = open;
                self.depth = depth;
                Ok(false)
            }
        }
    }

    fn file(&mut self) -> P
    {
        self.need_word("syntax")?;
        self.need('=')?;
        let before = self.open;
        let s = self.string()?;
        if s != "proto3" {
            // Spelled with escapes or in pieces.
            if !(s.contains('\\') || self.open != before) {
                return Err(Stop::Invalid);
            }
            self.open = true;
        }
        self.need(';')?;
        let mut packages = 0;
        while self.i < self.t.len() {
            if self.eat(';') {
            } else if self.eat_word("import") {
                if !self.eat_word("weak") {
                    self.eat_word("public");
                }
                self.string()?;
                self.need(';')?;
            } else if self.eat_word("package") {
                self.full_ident()?;
                self.need(';')?;
                packages += 1;
                self.open |= packages > 1;
            } else if self.at_word("option") {
                self.option()?;
            } else if self.at_word("message") {
                self.message()?;
            } else if self.at_word("enum") {
                self.enum_()?;
            } else if self.at_word("service") {
                self.service()?;
            } else if self.at_word("extend") {
                return Err(Stop::Open);
            } else {
                return Err(Stop::Invalid);
            }
        }
        Ok(())
    }

    fn option_name(&mut self) -> P
    {
        let part = |p: &mut Self, first: bool| {
            if p.eat('(') {
                p.open |= !first;
                if p.eat('.') {
                    p.open = true;
                }
                p.full_ident()?;
                p.need(')')
            } else {
                p.ident().map(|_| ())
            }
        };
        part(self, true)?;
        while self.eat('.') {
            part(self, false)?;
        }
        Ok(())
    }

    fn constant(&mut self) -> P
    {
        if self.at('{') || self.at('<') {
            return Err(Stop::Open);
        }
        let signed = self.eat('-') || self.eat('+');
        match self.peek() {
            Some(T::Int(s)) => {
                self.i += 1;
                self.open |= value_of(s).map_or(true, |v| v > i64::MAX as u64);
                Ok(())
            }
            Some(T::Float) => {
                self.i += 1;
                Ok(())
            }
            Some(T::Word(w)) => {
                let special = matches!(w, "inf" | "nan" | "true" | "false");
                if signed && !matches!(w, "inf" | "nan") {
                    return Err(Stop::Invalid);
                }
                let i = self.i;
                self.full_ident()?;
                self.open |= special && self.i > i + 1;
                Ok(())
            }
            Some(T::Str(_)) if !signed => self.string().map(|_| ()),
            _ => Err(Stop::Invalid),
        }
    }

    fn option(&mut self) -> P
    {
        self.need_word("option")?;
        self.option_name()?;
        self.need('=')?;
        self.constant()?;
        self.need(';')
    }

    /// `[a = 1, b = 2]`, if there.
    fn options(&mut self) -> P
    {
        if !self.eat('[') {
            return Ok(());
        }
        loop {
            self.option_name()?;
            self.need('=')?;
            self.constant()?;
            if !self.eat(',') {
                return self.need(']');
            }
        }
    }

    fn type_name(&mut self) -> P
    {
        if self.eat('.') {
            return self.full_ident().map(|_| ());
        }
        let i = self.i;
        let first = self.full_ident()?;
        let dotted = self.i > i + 1;
        self.open |= STATEMENT.contains(&first) || (dotted && SCALARS.contains(&first));
        Ok(())
    }

    fn number(&mut self) -> P
    {
        match self.peek() {
            Some(T::Int(s)) => {
                self.i += 1;
                self.open |= value_of(s).map_or(true, |v| v > (1 << 29) - 1);
                Ok(())
            }
            _ => Err(Stop::Invalid),
        }
    }

    fn field_rest(&mut self) -> P
    {
        self.type_name()?;
        self.ident()?;
        self.need('=')?;
        self.number()?;
        self.options()?;
        self.need(';')
    }

    fn field(&mut self) -> P
    {
        if !self.eat_word("repeated") {
            self.eat_word("optional");
        }
        self.field_rest()
    }

    fn enter(&mut self) -> P
    {
        self.depth += 1;
        if self.depth > 100 {
            return Err(Stop::Open);
        }
        Ok(())
    }

    fn message(&mut self) -> P
    {
        self.enter()?;
        self.need_word("message")?;
        self.ident()?;
        self.need('{')?;
        while !self.eat('}') {
            if self.eat(';') {
                continue;
            }
            let done = match self.peek() {
                Some(T::Word("option")) => self.attempt(|p| p.option())?,
                Some(T::Word("enum")) => self.attempt(|p| p.enum_())?,
                Some(T::Word("message")) => self.attempt(|p| p.message())?,
                Some(T::Word("oneof")) => self.attempt(|p| p.oneof())?,
                Some(T::Word("map")) => self.attempt(|p| p.map())?,
                Some(T::Word("reserved")) => self.attempt(|p| p.reserved(false))?,
                Some(T::Word("extend")) => return Err(Stop::Open),
                _ => false,
            };
            if !done {
                self.field()?;
            }
        }
        self.depth -= 1;
        Ok(())
    }

    fn oneof(&mut self) -> P
    {
        self.need_word("oneof")?;
        self.ident()?;
        self.need('{')?;
        let mut fields = 0;
        while !self.eat('}') {
            if self.eat(';') {
                self.open = true;
            } else if self.at_word("option") && self.attempt(|p| p.option())? {
            } else {
                self.field_rest()?;
                fields += 1;
            }
        }
        self.open |= fields == 0;
        Ok(())
    }

    fn map(&mut self) -> P
    {
        self.need_word("map")?;
        self.need('<')?;
        match self.ident()? {
            "double" | "float" | "bytes" => return Err(Stop::Invalid),
            k if SCALARS.contains(&k) => {}
            _ => return Err(Stop::Invalid),
        }
        self.need(',')?;
        self.type_name()?;
        self.need('>')?;
        self.ident()?;
        self.need('=')?;
        self.number()?;
        self.options()?;
        self.need(';')
    }

    fn reserved(&mut self, in_enum: bool) -> P
    {
        self.need_word("reserved")?;
        match self.peek() {
            Some(T::Str(_)) | Some(T::Word(_)) => loop {
                match self.peek() {
                    Some(T::Str(_)) => {
                        self.string()?;
                    }
                    Some(T::Word(_)) => {
                        self.open = true;
                        self.i += 1;
                    }
                    _ => return Err(Stop::Invalid),
                }
                if !self.eat(',') {
                    return self.need(';');
                }
            },
            _ => loop {
                let bound = |p: &mut Self| {
                    if p.eat('-') {
                        p.open |= !in_enum;
                    } else if p.eat('+') {
                        p.open = true;
                    }
                    match p.peek() {
                        Some(T::Int(s)) => {
                            p.i += 1;
                            p.open |= value_of(s).map_or(true, |v| v > 1 << 31);
                            Ok(())
                        }
                        _ => Err(Stop::Invalid),
                    }
                };
                bound(self)?;
                if self.eat_word("to") && !self.eat_word("max") {
                    bound(self)?;
                }
                if !self.eat(',') {
                    return self.need(';');
                }
            },
        }
    }

    fn enum_(&mut self) -> P
    {
        self.need_word("enum")?;
        self.ident()?;
        self.need('{')?;
        let mut values = 0;
        while !self.eat('}') {
            if self.eat(';') {
                continue;
            }
            let done = match self.peek() {
                Some(T::Word("option")) => self.attempt(|p| p.option())?,
                Some(T::Word("reserved")) => self.attempt(|p| p.reserved(true))?,
                _ => false,
            };
            if done {
                continue;
            }
            let name = self.ident()?;
            self.open |= matches!(name, "option" | "reserved");
            self.need('=')?;
            if !self.eat('-') && self.eat('+') {
                self.open = true;
            }
            match self.peek() {
                Some(T::Int(s)) => {
                    self.i += 1;
                    self.open |= value_of(s).map_or(true, |v| v > 1 << 31);
                }
                _ => return Err(Stop::Invalid),
            }
            self.options()?;
            self.need(';')?;
            values += 1;
        }
        self.open |= values == 0;
        Ok(())
    }

    fn service(&mut self) -> P
    {
        self.need_word("service")?;
        self.ident()?;
        self.need('{')?;
        while !self.eat('}') {
            if self.eat(';') {
            } else if self.at_word("option") {
                self.option()?;
            } else if self.at_word("rpc") {
                self.rpc()?;
            } else {
                return Err(Stop::Invalid);
            }
        }
        Ok(())
    }

    fn rpc(&mut self) -> P
    {
        self.need_word("rpc")?;
        self.ident()?;
        let arg = |p: &mut Self| {
            p.need('(')?;
            if p.eat_word("stream") {
                if p.at(')') {
                    return Err(Stop::Open);
                }
                p.open |= p.at_word("stream");
            }
            p.open |= matches!(p.peek(), Some(T::Word(w)) if SCALARS.contains(&w));
            p.type_name()?;
            p.need(')')
        };
        arg(self)?;
        self.need_word("returns")?;
        arg(self)?;
        if self.eat(';') {
            return Ok(());
        }
        self.need('{')?;
        while !self.eat('}') {
            if !self.eat(';') {
                self.option()?;
            }
        }
        Ok(())
    }
}

pub fn verdict(text: &str) -> Verdict
{
    let l = lex(text);
    let mut p = Parser {
        t: l.toks,
        i: 0,
        open: l.open,
        depth: 0,
    };
    match p.file() {
        Ok(()) if p.open => Verdict::Open,
        Ok(()) => Verdict::Valid,
        Err(Stop::Open) => Verdict::Open,
        Err(Stop::Invalid) => Verdict::Invalid,
    }
}
