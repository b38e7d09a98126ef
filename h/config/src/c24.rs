//! Placeholders in strings.
use ascii::AsciiString;
use serde_dynamic_string::DynamicString;
use vmc::{Case, Check};

/// Reads the string from left to right. `Err` holds what is wrong with it, if anything.
pub fn expand(text: &str, lookup: &dyn Fn(&str) -> Option<String>) -> Result<String, Vec<String>> {
    let chars: Vec<char> = text.chars().collect();
    let (mut out, mut wrong) = (String::new(), Vec::new());
    let mut i = 0;
    while i < chars.len() {
        match placeholder(&chars[i..]) {
            None => {
                out.push(chars[i]);
                i += 1;
            }
            Some((name, length)) => {
                i += length;
                let parts: Vec<&str> = name.split('.').collect();
                match parts.as_slice() {
                    ["env", variable] => match lookup(variable) {
                        Some(value) => out.push_str(&value),
                        None => wrong.push(variable.to_string()),
                    },
                    _ => wrong.push(name),
                }
            }
        }
    }
    if wrong.is_empty() { Ok(out) } else { Err(wrong) }
}

/// `{{`, spaces, a dotted name, spaces, `}}`.
fn placeholder(chars: &[char]) -> Option<(String, usize)> {
    if chars.len() < 2 || chars[0] != '{' || chars[1] != '{' {
        return None;
    }
    let mut i = 2;
    while i < chars.len() && chars[i].is_whitespace() {
        i += 1;
    }
    let start = i;
    while i < chars.len() && (chars[i].is_ascii_alphanumeric() || chars[i] == '_' || chars[i] == '.') {
        i += 1;
    }
    let name: String = chars[start..i].iter().collect();
    if name.is_empty() {
        return None;
    }
    while i < chars.len() && chars[i].is_whitespace() {
        i += 1;
    }
    (i + 1 < chars.len() && chars[i] == '}' && chars[i + 1] == '}').then_some((name, i + 2))
}

fn judge(c: &mut Case, text: &str) {
    c.note(|| format!("{text:?}"));
    let expected = expand(text, &|name| std::env::var(name).ok());
    let plain = text.parse::<DynamicString<String>>();
    match (&expected, &plain) {
        (Ok(e), Ok(g)) => {
            c.check_eq("value", e, &g.as_ref().to_string(), text);
            c.check(g.to_string() == *e && g.clone().into_inner() == *e, "views", || {
                format!("the views of the value of {text:?} differ")
            });
        }
        (Err(_), Ok(g)) => c.fail("accepted", format!("{text:?} reads as {:?}", g.as_ref())),
        (Ok(e), Err(g)) => c.fail("refused", format!("{text:?} should read as {e:?}, got the error {g:?}")),
        (Err(wrong), Err(g)) => {
            c.check(wrong.iter().any(|w| g.contains(w.as_str())), "error-names-culprit", || {
                format!("the error for {text:?} names none of {wrong:?}: {g}")
            });
        }
    }
    let ascii = text.parse::<DynamicString<AsciiString>>();
    match (&expected, &ascii) {
        (Ok(e), Ok(g)) => {
            c.check_eq("ascii-value", e, &g.as_ref().to_string(), text);
        }
        (Ok(e), Err(g)) => {
            c.check(!e.is_ascii(), "ascii-refused", || format!("{text:?}: {g}"));
        }
        (Err(_), Ok(_)) => c.fail("ascii-accepted", format!("{text:?}")),
        (Err(_), Err(_)) => {}
    }
    c.outcome(&(expected.is_ok(), plain.is_ok()));
    c.validated(1);
}

const TOKENS: &[&str] = &[
    "{{ env.VMC_A }}",
    "{{env.VMC_EMPTY}}",
    "{{\t env.VMC_BRACES\n}}",
    "{{ env.VMC_UNSET }}",
    "{{ env.VMC_ACCENT }}",
    "{{ cfg.VMC_A }}",
    "{{ env.VMC_A.B }}",
    "{{ VMC_A }}",
    "{{ }}",
    "{{ env. }}",
    "{{ env.VMC-A }}",
    "{{ env.VMC_A | x }}",
    "{ env.VMC_A }",
    "{",
    "}",
    "{{",
    "}}",
    " ",
    "text",
    "é",
    "$VMC_A",
];

const VALUE_CHARS: &[&str] = &[" ", "\n", "\t", "a", "{", "}", ".", "$", "\\", "é", "\""];

/// Every value up to three characters, under the names of the variables holding them.
pub fn values() -> Vec<(String, String)> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|v| VALUE_CHARS.iter().map(move |c| format!("{v}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all.push("{{ env.VMC_A }}".into());
    all.push(" {{env.VMC_UNSET}} ".into());
    all.push("x".repeat(5000));
    all.into_iter().enumerate().map(|(i, v)| (format!("VMC_V{i}"), v)).collect()
}

pub fn run(check: &Check) {
    let values = values();
    let values = &values;
    check.space("values", |c| {
        let (name, value) = c.pick(values);
        let before = *c.pick(&["", "x", " ", "{", "{{ env.VMC_A }}"]);
        let after = *c.pick(&["", "x", " ", "}", "{{ env.VMC_A }}"]);
        if std::env::var(name).ok().as_ref() != Some(value) {
            panic!("the environment is not set up");
        }
        judge(c, &format!("{before}{{{{ env.{name} }}}}{after}"));
    });
    check.assume("The variables of the process do not change while a string is read.");
    check.assume("Variables whose value is not Unicode are left out.");
    let depth = if check.thorough() { 5 } else { 4 };
    check.space("tokens", |c| {
        let n = c.choose(depth + 1);
        let text: String = (0..n).map(|_| *c.pick(TOKENS)).collect();
        judge(c, &text);
    });
    let length = if check.thorough() { 9 } else { 7 };
    // Every string over the characters that matter to the syntax. `e` `n` `v` is one character here.
    const CHARS: &[&str] = &["{", "}", " ", ".", "env", "X"];
    check.space("characters", |c| {
        let n = c.choose(length + 1);
        let text: String = (0..n).map(|_| *c.pick(CHARS)).collect();
        judge(c, &text);
    });
    check.space("around", |c| {
        let before = c.pick(&["", "{", "{{", "}", "x{{ ", "\\", "é"]);
        let open = c.pick(&["{{", "{{ ", "{{\n", "{{\u{a0}", "{{{", "{ {"]);
        let scope = c.pick(&["env", "ENV", "Env", "env.env", "", "e", "_"]);
        let dot = c.pick(&[".", "..", " . ", ""]);
        let name = c.pick(&["VMC_A", "vmc_a", "VMC_A1", "VMC_S0", "é", "", "VMC_BRACES"]);
        let close = c.pick(&["}}", " }}", "}", "}}}", "} }", "\t}}"]);
        let after = c.pick(&["", "}", "}}", "{{ env.VMC_A }}", " x"]);
        judge(c, &format!("{before}{open}{scope}{dot}{name}{close}{after}"));
    });
}
