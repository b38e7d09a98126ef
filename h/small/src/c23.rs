//! GraphRef: every string up to a length over an alphabet of separators and name characters.
use graph_ref::GraphRef;
use vmc::Check;

const ALPHA: [&str; 7] = ["a", "@", "#", "/", "-", "é", " "];

/// Reference parser. Ok((slug, branch, version)).
fn reference(s: &str) -> Result<(String, Option<String>, Option<String>), ()> {
    let chars: Vec<char> = s.chars().collect();
    let at = chars.iter().position(|c| *c == '@');
    let (slug, branch, version) = match at {
        None => (s.to_string(), None, None),
        Some(i) => {
            let slug: String = chars[..i].iter().collect();
            let rest = &chars[i + 1..];
            match rest.iter().position(|c| *c == '#') {
                None => (slug, Some(rest.iter().collect()), None),
                Some(j) => (
                    slug,
                    Some(rest[..j].iter().collect()),
                    Some(rest[j + 1..].iter().collect()),
                ),
            }
        }
    };
    if slug.is_empty() || slug.contains('/') {
        return Err(());
    }
    Ok((slug, branch, version))
}

pub fn run(ck: &Check) {
    ck.assume("strings over {a @ # / - é space} up to the bound stand for all strings");
    let max = if ck.thorough() { 8 } else { 7 };
    ck.space("strings", move |c| {
        let n = c.choose(max + 1);
        let s: String = (0..n).map(|_| *c.pick(&ALPHA)).collect();
        c.note(|| format!("{s:?}"));
        let got = s.parse::<GraphRef>();
        match (reference(&s), got) {
            (Err(()), Err(msg)) => {
                let msg = msg.to_string();
                let slug = s.split('@').next().unwrap();
                if slug.is_empty() {
                    c.outcome("empty");
                    c.trivial();
                } else {
                    // "account/graph@branch#v" must suggest what follows the first '/'
                    let suggestion = &s[s.find('/').unwrap() + 1..];
                    let has_graph = !suggestion.is_empty() && !suggestion.starts_with('@');
                    let expected = if has_graph {
                        format!("Did you mean: \"{suggestion}\"")
                    } else {
                        String::new()
                    };
                    c.outcome(&has_graph);
                    c.check(
                        msg.contains(&expected) && (has_graph || !msg.contains("Did you mean")),
                        "suggestion",
                        || format!("{s:?}: message {msg:?}, expected suggestion {expected:?}"),
                    );
                }
            }
            (Ok((slug, branch, version)), Ok(g)) => {
                c.outcome(&(branch.is_some(), version.is_some()));
                c.check_eq("slug", &slug.as_str(), &g.slug(), &s);
                c.check_eq("branch", &branch.as_deref(), &g.branch(), &s);
                c.check_eq("version", &version.as_deref(), &g.version(), &s);
                c.check_eq("display", &s, &g.to_string(), "display of the parsed reference");
                let built = match (branch, version) {
                    (None, _) => GraphRef::latest_production_version(slug),
                    (Some(b), None) => GraphRef::latest_version(slug, b),
                    (Some(b), Some(v)) => GraphRef::new(slug, b, v),
                };
                c.check(built == g && vmc::hash(&built) == vmc::hash(&g), "constructor", || format!("{s:?}: {built:?} != {g:?}"));
                c.check(g.to_string().parse::<GraphRef>() == Ok(g.clone()), "reparse", || s.clone());
            }
            (e, g) => c.fail("verdict", format!("{s:?}: expected {e:?}, got {g:?}")),
        }
    });
}
