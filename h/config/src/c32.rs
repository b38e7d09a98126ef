//! Reading the configuration file: placeholders and relative paths.
use crate::{c24, c31, model::*};
use gateway_config::Config;
use std::path::{Path, PathBuf};
use vmc::{Case, Check};

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("config-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Scratch(dir.canonicalize().unwrap())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn load(text: &str) -> Result<Config, String> {
    let dir = Scratch::new();
    let path = dir.0.join("grafbase.toml");
    std::fs::write(&path, text).unwrap();
    Config::load(&path).map(|c| c.expect("the file is there"))
}

fn lookup(name: &str) -> Option<String> {
    std::env::var(name).ok()
}

/// The literal with the placeholders of all its strings replaced.
fn expand(lit: &Lit) -> Option<Lit> {
    Some(match lit {
        Lit::S(v) => Lit::S(c24::expand(v, &lookup).ok()?),
        Lit::A(v) => Lit::A(v.iter().map(expand).collect::<Option<_>>()?),
        Lit::T(v) => Lit::T(v.iter().map(|(k, v)| Some((k.clone(), expand(v)?))).collect::<Option<_>>()?),
        other => other.clone(),
    })
}

const RELATIVE: &[&str] = &["extensions.auth.path", "subgraphs.products.schema_path", "wasm.cache_path"];

fn judge(c: &mut Case, schema: &Schema, doc: &Doc) {
    let text = doc.toml();
    c.note(|| text.clone());
    let mut read = Doc { set: Vec::new(), ..doc.clone() };
    let mut broken = None;
    for (path, lit) in &doc.set {
        match expand(lit) {
            Some(lit) => read.set.push((path.clone(), lit)),
            None => broken = Some(path.clone()),
        }
    }
    let got = load(&text);
    match (broken, &got) {
        (Some(path), Ok(_)) => c.fail("unset-accepted", format!("{path} has a placeholder without a value\n{text}")),
        (Some(path), Err(err)) => {
            let last = path.rsplit('.').next().unwrap();
            c.check(err.contains(last), "unset-location", || format!("the error does not name {path}: {err}"));
            c.validated(1);
        }
        (None, got) => {
            // Relative paths become absolute, which the space of paths looks at.
            for (path, lit) in &mut read.set {
                if RELATIVE.contains(&path.as_str())
                    && let Lit::S(v) = lit
                    && !v.starts_with('/')
                {
                    c.trivial();
                    return;
                }
            }
            c31::compare(c, schema, &read, got.as_ref().map_err(|e| e.as_str()))
        }
    }
}

pub fn run(check: &Check) {
    check.assume("Extension paths, schema paths and the WASM cache path are the ones resolved against the file; others are kept as written.");
    let schema = schema();
    let schema = &schema;
    let strings: Vec<String> =
        crate::environment().into_iter().filter(|(k, _)| k.starts_with("VMC_S") && k != "VMC_SPACES").map(|(k, _)| k).collect();
    let strings = &strings;

    check.space("a variable as a value", |c| {
        let leaf = c.pick(&schema.leaves);
        let name = c.pick(strings);
        let mut doc = Doc::default();
        doc.set.push((leaf.path.clone(), s(&format!("{{{{ env.{name} }}}}"))));
        c31::complete(schema, &mut doc);
        doc.set.rotate_left(1);
        judge(c, schema, &doc);
    });

    let pieces = [
        "{{ env.VMC_A }}",
        "x{{ env.VMC_A }}y",
        "{{env.VMC_A}}{{env.VMC_EMPTY}}",
        "{{ env.VMC_BRACES }}",
        "{{ env.VMC_UNSET }}",
        "{{ file.VMC_A }}",
        "{{ VMC_A }}",
        "{{",
        "plain",
    ];
    check.space("placeholders inside values", |c| {
        let leaf = c.pick(&schema.leaves);
        let v = s(*c.pick(&pieces));
        let w = s(*c.pick(&["plain", "{{ env.VMC_A }}", "{{ env.VMC_UNSET }}"]));
        let lit = match c.choose(6) {
            0 => v,
            1 => Lit::A(vec![v]),
            2 => Lit::A(vec![w, v]),
            3 => Lit::T(vec![("k".into(), v)]),
            4 => Lit::T(vec![("j".into(), w), ("k".into(), v)]),
            _ => Lit::T(vec![("k".into(), Lit::A(vec![Lit::I(1), Lit::T(vec![("l".into(), v)])]))]),
        };
        let mut doc = Doc::default();
        doc.set.push((leaf.path.clone(), lit));
        c31::complete(schema, &mut doc);
        doc.set.rotate_left(1);
        judge(c, schema, &doc);
    });

    let values: &[&str] = &[
        "schema",
        "./schema",
        "../up/schema",
        "a//b/../c",
        "",
        ".",
        "/abs/schema",
        "/",
        "{{ env.VMC_REL }}/x",
        "{{ env.VMC_ABS }}/x",
        "{{ env.VMC_UP }}/x",
        "~/x",
    ];
    check.space("relative paths", |c| {
        // Where the file is, how it is named, and from where.
        let place = c.choose(6);
        let settings: Vec<Option<&str>> = (0..3)
            .map(|i| {
                let few = if c.thorough() || i == place % 3 { values.len() } else { 5 };
                match c.choose(few + 1) {
                    0 => None,
                    n if few == 5 => Some([values[0], values[2], values[6], values[8], values[9]][n - 1]),
                    n => Some(values[n - 1]),
                }
            })
            .collect();
        let dir = Scratch::new();
        let sub = dir.0.join("conf");
        std::fs::create_dir_all(&sub).unwrap();
        let (file, cwd, named): (PathBuf, Option<PathBuf>, Option<PathBuf>) = match place {
            0 => (dir.0.join("grafbase.toml"), None, Some(dir.0.join("grafbase.toml"))),
            1 => (sub.join("other.toml"), Some(PathBuf::from("/")), Some(sub.join("other.toml"))),
            2 => (dir.0.join("grafbase.toml"), Some(dir.0.clone()), None),
            3 => (dir.0.join("gw.toml"), Some(dir.0.clone()), Some("gw.toml".into())),
            4 => (sub.join("gw.toml"), Some(dir.0.clone()), Some("conf/gw.toml".into())),
            _ => (dir.0.join("gw.toml"), Some(sub.clone()), Some("../gw.toml".into())),
        };
        let keys = ["subgraphs.products.schema_path", "extensions.auth.path", "wasm.cache_path"];
        let mut text = String::from(
            "subgraphs.other.schema_path = \"/abs/other\"\nextensions.plain = \"1\"\n[tls]\ncertificate = \"cert\"\nkey = \"/key\"\n",
        );
        let mut top = String::new();
        for (key, value) in keys.iter().zip(&settings) {
            if let Some(v) = value {
                top.push_str(&format!("{key} = {}\n", quoted(v)));
            }
        }
        text.insert_str(0, &top);
        std::fs::write(&file, &text).unwrap();
        c.note(|| format!("{text}\nas {named:?} from {cwd:?}"));
        let mut loader = Config::loader();
        if let Some(cwd) = &cwd {
            loader = loader.with_current_dir(cwd);
        }
        let config = match loader.load(named.as_ref()) {
            Ok(Some(config)) => config,
            Ok(None) => return c.fail("not-found", format!("{} is not found", file.display())),
            Err(err) => return c.fail("load", err),
        };
        c.validated(1);
        c.outcome(&(place, settings.iter().map(|s| s.is_some()).collect::<Vec<_>>()));
        let parent = file.parent().unwrap();
        let home = |p: &Path| -> PathBuf {
            parent.join(p)
        };
        let got: [Option<PathBuf>; 3] = [
            config.subgraphs.get("products").and_then(|s| s.schema_path.clone()),
            config.extensions.get("auth").and_then(|e| e.path().map(|p| p.to_path_buf())),
            config.wasm.as_ref().and_then(|w| w.cache_path.clone()),
        ];
        for i in 0..3 {
            let expected = settings[i].map(|v| home(Path::new(&c24::expand(v, &lookup).unwrap())));
            let norm = |p: &PathBuf| normal(p);
            c.check_eq(
                &format!("path:{}", keys[i]),
                &expected.as_ref().map(norm),
                &got[i].as_ref().map(norm),
                "the path",
            );
            if let Some(p) = &got[i] {
                c.check(p.is_absolute(), "absolute", || format!("{} is {}", keys[i], p.display()));
            }
        }
        c.check_eq(
            "path:other",
            &Some(PathBuf::from("/abs/other")),
            &config.subgraphs["other"].schema_path,
            "an absolute path",
        );
        c.check_eq("path:own", &Some(normal(&file)), &config.path.as_ref().map(|p| normal(p)), "the file itself");
        let tls = config.tls.unwrap();
        c.check(tls.key == Path::new("/key"), "path:tls", || format!("{}", tls.key.display()));
    });

    check.space("no file", |c| {
        let dir = Scratch::new();
        let named = c.flag();
        let loader = Config::loader().with_current_dir(&dir.0);
        let got = if named { loader.load(Some(dir.0.join("grafbase.toml"))) } else { loader.load(None::<PathBuf>) };
        match got {
            Ok(None) => {
                c.check(!named, "missing-named", || "a file that was named and is missing is ignored".into());
            }
            Ok(Some(_)) => c.fail("missing-found", "a configuration out of nowhere"),
            Err(err) => {
                c.check(named, "missing-default", || err);
            }
        }
    });
}

/// The path without `.` and with `x/..` taken out, as there are no links here.
fn normal(path: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for part in path.components() {
        match part {
            std::path::Component::CurDir => {}
            std::path::Component::ParentDir => {
                out.pop();
            }
            other => out.push(other),
        }
    }
    out
}
