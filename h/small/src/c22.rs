//! Field selection maps: grammar trees printed in several layouts & all token strings.
use field_selection_map::*;
use vmc::{Case, Check};

// ---- reference AST & independent recursive descent parser ---------------------------------------
#[derive(Clone, Debug, PartialEq)]
struct V(Vec<E>);
#[derive(Clone, Debug, PartialEq)]
enum E {
    Id,
    Path(P),
    Obj(Option<P>, Vec<(String, Option<V>)>),
    List(Option<P>, V),
}
#[derive(Clone, Debug, PartialEq)]
struct P {
    ty: Option<String>,
    segs: Vec<(String, Option<String>)>,
}

fn conv(v: &SelectedValue<'_>) -> V {
    let p = |p: &Path<'_>| P {
        ty: p.ty.map(|s| s.to_string()),
        segs: p.segments.iter().map(|s| (s.field.to_string(), s.ty.map(|s| s.to_string()))).collect(),
    };
    V(v.alternatives
        .iter()
        .map(|a| match a {
            SelectedValueEntry::Identity => E::Id,
            SelectedValueEntry::Path(x) => E::Path(p(x)),
            SelectedValueEntry::Object { path, object } => E::Obj(
                path.as_ref().map(p),
                object.fields.iter().map(|f| (f.key.to_string(), f.value.as_ref().map(conv))).collect(),
            ),
            SelectedValueEntry::List { path, list } => E::List(path.as_ref().map(p), conv(&list.0)),
        })
        .collect())
}

/// `sep` is white space put between tokens.
fn show(v: &V, sep: &str, out: &mut String) {
    for (i, e) in v.0.iter().enumerate() {
        if i > 0 {
            out.push_str(sep);
            out.push('|');
            out.push_str(sep);
        }
        match e {
            E::Id => out.push('.'),
            E::Path(p) => show_path(p, sep, out),
            E::Obj(p, fields) => {
                if let Some(p) = p {
                    show_path(p, sep, out);
                    out.push_str(sep);
                    out.push('.');
                    out.push_str(sep);
                }
                out.push('{');
                out.push_str(sep);
                for (i, (k, v)) in fields.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if sep.is_empty() { " " } else { sep });
                    }
                    out.push_str(k);
                    if let Some(v) = v {
                        out.push_str(sep);
                        out.push(':');
                        out.push_str(sep);
                        show(v, sep, out);
                    }
                }
                out.push_str(sep);
                out.push('}');
            }
            E::List(p, v) => {
                if let Some(p) = p {
                    show_path(p, sep, out);
                    out.push_str(sep);
                }
                out.push('[');
                out.push_str(sep);
                show(v, sep, out);
                out.push_str(sep);
                out.push(']');
            }
        }
    }
}
fn show_path(p: &P, sep: &str, out: &mut String) {
    if let Some(t) = &p.ty {
        out.push_str(&format!("<{sep}{t}{sep}>{sep}."));
    }
    for (i, (f, t)) in p.segs.iter().enumerate() {
        if i > 0 {
            out.push_str(&format!("{sep}.{sep}"));
        }
        out.push_str(f);
        if let Some(t) = t {
            out.push_str(&format!("{sep}<{sep}{t}{sep}>"));
        }
    }
}

fn gen_v(c: &mut Case, budget: &mut usize, depth: usize) -> V {
    let mut alts = vec![gen_e(c, budget, depth)];
    while alts.len() < 3 && *budget > 0 && c.flag() {
        *budget -= 1;
        alts.push(gen_e(c, budget, depth));
    }
    V(alts)
}
fn gen_p(c: &mut Case, budget: &mut usize) -> P {
    const N: [&str; 2] = ["a", "_b1"];
    let ty = if *budget > 0 && c.flag() {
        *budget -= 1;
        Some("T".to_string())
    } else {
        None
    };
    let mut segs = vec![];
    loop {
        let n = c.pick(&N).to_string();
        let t = if *budget > 0 && c.flag() {
            *budget -= 1;
            Some("U".to_string())
        } else {
            None
        };
        segs.push((n, t));
        if segs.len() < 3 && *budget > 0 && c.flag() {
            *budget -= 1;
        } else {
            return P { ty, segs };
        }
    }
}
fn gen_e(c: &mut Case, budget: &mut usize, depth: usize) -> E {
    let k = c.choose(if *budget == 0 || depth == 0 { 2 } else { 4 });
    match k {
        0 => E::Path(gen_p(c, budget)),
        1 => E::Id,
        2 => {
            *budget -= 1;
            let p = c.flag().then(|| gen_p(c, budget));
            let n = c.choose(1 + 2.min(*budget + 1));
            let mut fields = vec![];
            for i in 0..n {
                let v = if *budget > 0 && c.flag() {
                    *budget -= 1;
                    Some(gen_v(c, budget, depth - 1))
                } else {
                    None
                };
                fields.push((["k", "l2"][i].to_string(), v));
            }
            E::Obj(p, fields)
        }
        _ => {
            *budget -= 1;
            let p = c.flag().then(|| gen_p(c, budget));
            E::List(p, gen_v(c, budget, depth - 1))
        }
    }
}

// ---- reference recogniser over characters (independent of the implementation) -----------------
struct R<'a> {
    s: &'a [char],
    i: usize,
}
type Res<T> = Option<T>;
impl R<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn peek_ws(&self) -> Option<char> {
        let mut j = self.i;
        while j < self.s.len() && self.s[j].is_ascii_whitespace() {
            j += 1;
        }
        self.s.get(j).copied()
    }
    fn eat(&mut self, c: char) -> Res<()> {
        (self.peek() == Some(c)).then(|| self.i += 1)
    }
    fn name(&mut self) -> Res<String> {
        let st = self.i;
        while let Some(c) = self.peek() {
            let ok = if self.i == st {
                c.is_ascii_alphabetic() || c == '_'
            } else {
                c.is_ascii_alphanumeric() || c == '_'
            };
            if !ok {
                break;
            }
            self.i += 1;
        }
        (self.i > st).then(|| self.s[st..self.i].iter().collect())
    }
    fn value(&mut self) -> Res<V> {
        let mut alts = vec![self.entry()?];
        while self.peek_ws() == Some('|') {
            self.ws();
            self.i += 1;
            self.ws();
            alts.push(self.entry()?);
        }
        Some(V(alts))
    }
    fn entry(&mut self) -> Res<E> {
        match self.peek()? {
            '{' => Some(E::Obj(None, self.obj()?)),
            '[' => Some(E::List(None, self.list()?)),
            '.' => {
                self.i += 1;
                Some(E::Id)
            }
            _ => {
                let ty = if self.peek() == Some('<') {
                    self.i += 1;
                    self.ws();
                    let n = self.name()?;
                    self.ws();
                    self.eat('>')?;
                    self.ws();
                    self.eat('.')?;
                    Some(n)
                } else {
                    None
                };
                let mut segs = vec![];
                loop {
                    let n = self.name()?;
                    let t = if self.peek_ws() == Some('<') {
                        self.ws();
                        self.i += 1;
                        self.ws();
                        let t = self.name()?;
                        self.ws();
                        self.eat('>')?;
                        Some(t)
                    } else {
                        None
                    };
                    segs.push((n, t));
                    match self.peek_ws() {
                        Some('.') => {
                            self.ws();
                            self.i += 1;
                            self.ws();
                            if self.peek() == Some('{') {
                                return Some(E::Obj(Some(P { ty, segs }), self.obj()?));
                            }
                        }
                        Some('[') => {
                            self.ws();
                            return Some(E::List(Some(P { ty, segs }), self.list()?));
                        }
                        _ => return Some(E::Path(P { ty, segs })),
                    }
                }
            }
        }
    }
    fn list(&mut self) -> Res<V> {
        self.eat('[')?;
        self.ws();
        let v = self.value()?;
        self.ws();
        self.eat(']')?;
        Some(v)
    }
    fn obj(&mut self) -> Res<Vec<(String, Option<V>)>> {
        self.eat('{')?;
        self.ws();
        let mut out = vec![];
        while self.peek()? != '}' {
            let k = self.name()?;
            let v = if self.peek_ws() == Some(':') {
                self.ws();
                self.i += 1;
                self.ws();
                Some(self.value()?)
            } else {
                None
            };
            out.push((k, v));
            let before = self.i;
            self.ws();
            if self.peek()? != '}' && self.i == before {
                return None;
            }
        }
        self.i += 1;
        Some(out)
    }
}
fn reference(s: &str) -> Option<V> {
    let chars: Vec<char> = s.chars().collect();
    let mut r = R { s: &chars, i: 0 };
    r.ws();
    let v = r.value()?;
    r.ws();
    (r.i == chars.len()).then_some(v)
}

fn check(c: &mut Case, s: &str, expected: Option<&V>) {
    let got = SelectedValue::try_from(s);
    match (expected, &got) {
        (None, Err(_)) => c.outcome("rejected"),
        (Some(e), Ok(g)) => {
            let g2 = conv(g);
            c.outcome(&format!("{g2:?}"));
            c.check_eq("meaning", e, &g2, s);
            let shown = g.to_string();
            match SelectedValue::try_from(shown.as_str()) {
                Ok(again) => {
                    c.check(&again == g, "roundtrip", || format!("{s:?} displays as {shown:?} which parses as {again:?}"));
                    c.check(again.to_string() == shown, "display-stable", || shown.clone());
                }
                Err(e) => c.fail("roundtrip", format!("{s:?} displays as {shown:?} which does not parse: {e}")),
            }
        }
        (e, g) => c.fail("verdict", format!("{s:?}: expected {e:?}, got {g:?}")),
    }
}

pub fn run(ck: &Check) {
    ck.assume("names range over a, _b1, k, l2, T, U; white space over none, space, newline+tab");
    let budget = if ck.thorough() { 6 } else { 5 };
    ck.space("selection trees x layouts", move |c| {
        let mut b = budget;
        let v = gen_v(c, &mut b, 2);
        let sep = *c.pick(&["", " ", "\n\t "]);
        let mut s = String::new();
        show(&v, sep, &mut s);
        if sep == " " {
            s = format!(" {s} ");
        }
        c.note(|| format!("{s:?}"));
        c.check(reference(&s).as_ref() == Some(&v), "harness", || format!("vmc: reference parser disagrees with the generator on {s:?}"));
        check(c, &s, Some(&v));
    });
    const TOK: [&str; 13] = ["a", "é", ".", "|", "{", "}", "[", "]", "<", ">", ":", " ", "1"];
    let n = if ck.thorough() { 8 } else { 6 };
    ck.space("token strings", move |c| {
        let k = c.choose(n + 1);
        let mut s = String::new();
        for _ in 0..k {
            s.push_str(*c.pick(&TOK));
        }
        c.note(|| format!("{s:?}"));
        let r = reference(&s);
        if r.is_none() {
            c.trivial();
        }
        check(c, &s, r.as_ref());
    });
}
