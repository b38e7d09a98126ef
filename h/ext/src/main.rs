//! C25: extension ids, manifests and the catalog.
use extension::*;
use extension_catalog::{Extension, ExtensionCatalog, ExtensionId};
use semver::{Version, VersionReq};
use vmc::{Case, Check};

fn main() {
    vmc::main(&[("C25", "exploration", run)])
}

fn manifest(name: &str, version: &str) -> Manifest {
    Manifest {
        id: Id { name: name.into(), version: Version::parse(version).unwrap() },
        r#type: Type::Authentication(Empty {}),
        sdk_version: Version::new(0, 1, 0),
        minimum_gateway_version: Version::new(0, 2, 0),
        description: "d".into(),
        associated_link_urls: vec![],
        sdl: None,
        readme: None,
        homepage_url: None,
        repository_url: None,
        license: None,
        permissions: vec![],
        legacy_event_filter: None,
    }
}

/// Reference caret / exact / range matching over plain triples (no prerelease).
fn matches(req: &str, v: (u64, u64, u64)) -> bool {
    match req {
        "*" => true,
        "^1.0.0" | "1" => v.0 == 1,
        "~1.2" => v.0 == 1 && v.1 == 2,
        "=1.2.3" => v == (1, 2, 3),
        ">=1.1.0, <2.1.0" => v >= (1, 1, 0) && v < (2, 1, 0),
        "^0.2.0" => v.0 == 0 && v.1 == 2,
        _ => unreachable!(),
    }
}
const REQS: [&str; 7] = ["*", "^1.0.0", "1", "~1.2", "=1.2.3", ">=1.1.0, <2.1.0", "^0.2.0"];
const VERSIONS: [&str; 5] = ["1.0.0", "1.2.3", "1.2.4", "2.0.0", "0.2.1"];

fn triple(v: &str) -> (u64, u64, u64) {
    let p: Vec<u64> = v.split('.').map(|s| s.parse().unwrap()).collect();
    (p[0], p[1], p[2])
}

fn run(ck: &Check) {
    ck.assume("small alphabets of names, versions, link URLs, keys and descriptions; catalogs of at most 3 extensions");
    let versions: &[&str] = if ck.thorough() { &VERSIONS } else { &VERSIONS[..4] };
    ck.space("catalog lookups", |c| {
        const NAMES: [&str; 2] = ["auth", "auth-2"];
        const URLS: [&str; 3] = ["https://a/1", "https://a/2", "https://a/1/"];
        let n = c.choose(4);
        let mut cat = ExtensionCatalog::default();
        // (name, version, urls, key)
        let mut model: Vec<(&str, &str, Vec<&str>, &str)> = vec![];
        for i in 0..n {
            let name = *c.pick(&NAMES);
            let version = *c.pick(versions);
            let urls = match c.choose(4) {
                0 => vec![],
                1 => vec![URLS[0]],
                2 => vec![URLS[1]],
                _ => vec![URLS[2], URLS[0]],
            };
            let key = *c.pick(&["auth", "k"]);
            let mut m = manifest(name, version);
            m.associated_link_urls = urls.iter().map(|s| s.to_string()).collect();
            let id = cat.push(Extension { config_key: key.into(), manifest: m, wasm_path: format!("{i}.wasm").into() });
            c.check_eq("push-id", &i, &usize::from(id), "push returns the position");
            model.push((name, version, urls, key));
            // ids given out earlier still designate the same extension
            for (j, e) in model.iter().enumerate() {
                let x = &cat[ExtensionId::from(j)];
                c.check(x.manifest.name() == e.0 && x.manifest.version().to_string() == e.1 && x.config_key == e.3 && x.wasm_path.to_str() == Some(&format!("{j}.wasm")), "stable-id", || format!("id {j} moved"));
            }
        }
        c.note(|| format!("{model:?}"));
        c.check_eq("len", &n, &cat.len(), "len");
        c.check_eq("is_empty", &(n == 0), &cat.is_empty(), "is_empty");
        c.check_eq("iter", &model.iter().map(|m| m.0.to_string()).collect::<Vec<_>>(), &cat.iter().map(|e| e.manifest.name().to_string()).collect::<Vec<_>>(), "iter");
        c.check_eq("iter_with_id", &(0..n).collect::<Vec<_>>(), &cat.iter_with_id().map(|(i, _)| usize::from(i)).collect::<Vec<_>>(), "iter_with_id");
        for name in ["auth", "auth-2", "other", ""] {
            let exp = model.iter().position(|m| m.0 == name);
            c.check_eq("by-name", &exp, &cat.get_id_by_name(name).map(usize::from), name);
        }
        for key in ["auth", "k", "K", ""] {
            let exp = model.iter().position(|m| m.3 == key);
            c.check_eq("by-key", &exp, &cat.get_id_by_config_key(key).map(usize::from), key);
        }
        for url in ["https://a/1", "https://a/2", "https://a/1/", "https://a/", ""] {
            for name in [None, Some("auth"), Some("auth-2"), Some("aut")] {
                for req in REQS.iter().map(|r| Some(*r)).chain([None]) {
                    let by_url = model.iter().position(|m| m.2.contains(&url));
                    let exp = by_url.or_else(|| {
                        let name = name?;
                        model.iter().position(|m| m.0 == name && req.is_none_or(|r| matches(r, triple(m.1))))
                    });
                    let vr = req.map(|r| VersionReq::parse(r).unwrap());
                    let got = cat.find_compatible_extension(url, name, vr.as_ref()).map(usize::from);
                    c.outcome(&(exp, by_url.is_some()));
                    c.check_eq("find", &exp, &got, &format!("find_compatible_extension({url:?}, {name:?}, {req:?}) in {model:?}"));
                    c.steps(1);
                }
            }
        }
    });

    ck.space("id text round trip", |c| {
        let name = *c.pick(&["auth", "my-extension", "a-b-c", "x1", "1", "v-1", "nats-2"]);
        let version = *c.pick(&["1.0.0", "0.0.0", "10.20.30", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0-rc-2", "1.0.0+b5", "1.0.0+build-5", "1.0.0-a-b+c-d"]);
        let id = Id { name: name.into(), version: Version::parse(version).unwrap() };
        let s = id.to_string();
        c.note(|| s.clone());
        c.outcome(&s);
        c.check_eq("display", &format!("{name}-{version}"), &s, "display");
        match s.parse::<Id>() {
            Ok(back) => {
                c.check_eq("id-roundtrip", &id, &back, &s);
            }
            Err(e) => c.fail("id-roundtrip", format!("{s:?} does not parse back: {e}")),
        }
        let json = serde_json::to_string(&id).unwrap();
        c.check_eq("id-json", &Some(id), &serde_json::from_str(&json).ok(), &json);
    });
    ck.space("malformed ids", |c| {
        let n = c.choose(6);
        let s: String = (0..n).map(|_| *c.pick(&["a", "-", "1.0.0", "."])).collect();
        c.note(|| format!("{s:?}"));
        // never panics; whatever is accepted displays as what was parsed
        if let Ok(id) = s.parse::<Id>() {
            c.outcome("ok");
            c.check_eq("reparse", &s, &id.to_string(), "accepted id");
        } else {
            c.outcome("err");
            c.trivial();
            c.check(
                !s.char_indices().any(|(i, ch)| ch == '-' && Version::parse(&s[i + 1..]).is_ok()),
                "refused",
                || format!("{s:?} refused"),
            );
        }
    });
    ck.space("compatibility", |c| {
        let name = *c.pick(&["auth", "auth-2", "AUTH", ""]);
        let want = *c.pick(&["auth", "auth-2", ""]);
        let v = *c.pick(&VERSIONS);
        let r = *c.pick(&REQS);
        c.note(|| format!("{name}-{v} for {want} {r}"));
        let id = Id { name: name.into(), version: Version::parse(v).unwrap() };
        let exp = name == want && matches(r, triple(v));
        c.outcome(&exp);
        c.check_eq("compatible", &exp, &id.is_compatible_with(want, &VersionReq::parse(r).unwrap()), "is_compatible_with");
    });

    ck.space("manifest round trip", |c| {
        let mut m = manifest("my-ext", "1.2.3-alpha.1");
        let list = |c: &mut Case| match c.choose(3) {
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec!["a".to_string(), "b\"".to_string()]),
        };
        m.r#type = match c.choose(7) {
            0 => Type::FieldResolver(FieldResolverType { resolver_directives: list(c) }),
            1 => Type::SelectionSetResolver(Empty {}),
            2 => Type::Resolver(ResolverType { directives: list(c) }),
            3 => Type::Authentication(Empty {}),
            4 => Type::Authorization(AuthorizationType { directives: list(c), group_by: c.flag().then(|| vec![AuthorizationGroupBy::Subgraph]) }),
            5 => Type::Hooks(HooksType { event_filter: filter(c) }),
            _ => Type::Contracts(ContractType { directives: list(c) }),
        };
        m.permissions = c.subset(&[ExtensionPermission::Network, ExtensionPermission::Stdout, ExtensionPermission::Stderr, ExtensionPermission::EnvironmentVariables]);
        if c.flag() {
            m.associated_link_urls = vec!["https://x/1".into(), "".into()];
        }
        match c.choose(3) {
            0 => {}
            1 => {
                m.sdl = Some("directive @é on FIELD_DEFINITION\n\"\"\"x\"\"\"".into());
                m.license = Some("MIT".into());
            }
            _ => {
                m.readme = Some("\u{0}\\ \u{1F600}".into());
                m.homepage_url = Some("https://x/é?a=b#c".parse().unwrap());
                m.repository_url = Some("https://x/".parse().unwrap());
            }
        }
        m.legacy_event_filter = filter(c);
        c.note(|| format!("{m:?}"));
        for (what, p) in [
            (m.network_enabled(), ExtensionPermission::Network),
            (m.stdout_enabled(), ExtensionPermission::Stdout),
            (m.stderr_enabled(), ExtensionPermission::Stderr),
            (m.environment_variables_enabled(), ExtensionPermission::EnvironmentVariables),
        ] {
            c.check_eq("permission", &m.permissions.contains(&p), &what, &format!("{p:?}"));
        }
        let v = m.clone().into_versioned();
        let json = serde_json::to_string_pretty(&v).unwrap();
        c.outcome(&json);
        let back: Result<VersionedManifest, _> = serde_json::from_str(&json);
        match back {
            Ok(b) => {
                c.check_eq("manifest-roundtrip", &m, &b.into_latest(), &json);
            }
            Err(e) => c.fail("manifest-roundtrip", format!("{json}: {e}")),
        }
    });

    ck.space("manifest loading", |c| {
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let tmp = std::env::temp_dir();
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = tmp.join(format!("manifest-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).unwrap();
        let m = manifest("loaded", "1.0.0");
        std::fs::write(dir.join("manifest.json"), serde_json::to_vec(&m.clone().into_versioned()).unwrap()).unwrap();
        let kind = c.choose(4);
        let url = match kind {
            0 => url::Url::from_directory_path(&dir).unwrap(),
            1 => url::Url::from_file_path(&dir).unwrap(),
            2 => url::Url::from_file_path(dir.join("manifest.json")).unwrap(),
            _ => url::Url::from_file_path(dir.join("missing")).unwrap(),
        };
        c.note(|| format!("kind {kind}"));
        let got = rt.block_on(extension_catalog::load_manifest(url));
        c.outcome(&got.is_ok());
        if kind == 3 {
            c.check(got.is_err(), "load", || "loaded a missing manifest".into());
        } else {
            c.check_eq("load", &Ok(m), &got, "load_manifest");
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ck.space("lockfile round trip", |c| {
        let n = c.choose(4);
        let l = lockfile::Lockfile {
            extensions: (0..n).map(|_| lockfile::Extension { name: c.pick(&["a", "b-c"]).to_string(), version: c.pick(&["1.0.0", "2.0.0-x"]).parse().unwrap() }).collect(),
        };
        let json = serde_json::to_string(&lockfile::VersionedLockfile::V1(l.clone())).unwrap();
        c.note(|| json.clone());
        c.outcome(&json);
        let lockfile::VersionedLockfile::V1(b) = serde_json::from_str(&json).unwrap();
        c.check_eq("lockfile", &l.extensions.iter().map(|e| (e.name.clone(), e.version.clone())).collect::<Vec<_>>(), &b.extensions.iter().map(|e| (e.name.clone(), e.version.clone())).collect::<Vec<_>>(), &json);
    });
}

fn filter(c: &mut Case) -> Option<EventFilter> {
    match c.choose(4) {
        0 => None,
        1 => Some(EventFilter::All),
        2 => Some(EventFilter::Types(vec![])),
        _ => Some(EventFilter::Types(vec![EventType::Operation, EventType::SubgraphRequest, EventType::HttpRequest, EventType::Extension])),
    }
}
