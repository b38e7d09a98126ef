//! The explored sets of subgraphs.
use vmc::{Case, Check};

use crate::judge::{judge, judge_with};
use crate::model::*;

type Space = (&'static str, fn(&mut Case, &str), &'static [&'static str]);

const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"];
const NAMES: [&str; 3] = ["a", "b", "c"];

/// Every wrapping of `name` up to the given list depth.
fn wrappings(name: &str, depth: usize) -> Vec<String> {
    let mut out = vec![];
    for d in 0..=depth {
        for bits in 0..(1 << (d + 1)) {
            let t = T { name: name.into(), nn: (0..=d).map(|i| bits >> i & 1 == 1).collect() };
            out.push(t.show());
        }
    }
    out
}

/// One element of the given type at each kind of position, in a subgraph of its own.
fn positioned(i: usize, position: usize, ty: &str) -> Sub {
    let first = i == 0;
    let mut types = match position {
        0 => vec![obj("Query", vec![f("x", ty).share()])],
        1 => vec![obj("Query", vec![f("q", "O").share()]), obj("O", vec![f("x", ty).share()])],
        2 => vec![obj("Query", vec![f("q", "Int").arg(f("x", ty)).share()])],
        3 => vec![
            obj("Query", vec![f("q", "Int").arg(f("i", "I")).share()]),
            def(Kind::Input, "I", vec![f("x", ty), f("k", "Int")]),
        ],
        4 => {
            let mut v = vec![obj("Query", vec![f("q", "I").share()]), def(Kind::Interface, "I", vec![f("x", ty)])];
            if first {
                v.push(obj("O", vec![f("x", ty)]).imp("I"));
            }
            v
        }
        // an object that is the type of a field, and an enum in an argument
        _ => vec![obj("Query", vec![f("q", "O").share(), f("e", "Int").arg(f("x", ty)).share()]), obj("O", vec![f("o", "Int").share()])],
    };
    if T::parse(ty).name == "E" {
        types.push(def(Kind::Enum, "E", vec![f("V", "")]));
    }
    if T::parse(ty).name == "O" && !types.iter().any(|t| t.name == "O") {
        types.push(obj("O", vec![f("o", "Int").share()]));
    }
    sub(NAMES[i], types)
}

fn wrapping_pairs(c: &mut Case, prop: &str) {
    let position = c.choose(6);
    let names: &[&str] = match position {
        2 | 3 | 5 => &["Int", "E"],
        _ => &["Int", "O", "E"],
    };
    let n1 = *c.pick(names);
    let n2 = *c.pick(names);
    let depth = if c.thorough() { 3 } else { 2 };
    let w1 = c.pick(&wrappings(n1, depth)).clone();
    let w2 = c.pick(&wrappings(n2, depth)).clone();
    let subs = [positioned(0, position, &w1), positioned(1, position, &w2)];
    judge(c, prop, &subs);
}

fn wrapping_triples(c: &mut Case, prop: &str) {
    let position = c.choose(5);
    let depth = if c.thorough() { 2 } else { 1 };
    let ws = wrappings("Int", depth);
    let subs: Vec<Sub> = (0..3).map(|i| positioned(i, position, &c.pick(&ws).clone())).collect();
    judge(c, prop, &subs);
}

/// Each subgraph declares any subset of the fields of a type.
fn object_fields(c: &mut Case, prop: &str) {
    let n = 2 + c.choose(2);
    let owner = c.choose(4);
    let names = if n == 3 && !c.thorough() { vec!["x", "y"] } else { vec!["x", "y", "z"] };
    let type_level = owner == 1 && c.flag();
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let fs = c.subset(&names);
        let mut types = vec![];
        let mut root: Vec<Fd> = vec![f(&format!("own_{name}"), "Int")];
        let fields: Vec<Fd> = fs.iter().map(|x| if owner == 2 || type_level { f(x, "Int") } else { f(x, "Int").share() }).collect();
        match owner {
            0 => root.extend(fields),
            1 if !fields.is_empty() => {
                root.push(f(&format!("get_{name}"), "T"));
                types.push(if type_level { obj("T", fields).share() } else { obj("T", fields) });
            }
            2 if !fields.is_empty() => {
                root.push(f(&format!("get_{name}"), "T"));
                types.push(def(Kind::Interface, "T", fields));
            }
            3 => {
                let mut with_key = vec![f("id", "ID!")];
                with_key.extend(fields);
                root.push(f(&format!("get_{name}"), "T"));
                types.push(obj("T", with_key).key("id"));
            }
            _ => {}
        }
        types.push(obj("Query", root));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Arguments: absent, optional, with a default, or required, in each subgraph.
fn arguments(c: &mut Case, prop: &str) {
    let n = if c.thorough() { 3 } else { 2 + c.choose(2) };
    let names: &[&str] = if n == 2 || c.thorough() { &["x", "y"] } else { &["x"] };
    let owner = c.choose(3);
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let mut fd = f("q", "Int").share();
        for a in names {
            match c.choose(5) {
                0 => {}
                1 => fd = fd.arg(f(a, "Int")),
                2 => fd = fd.arg(f(a, "Int").def("1")),
                3 => fd = fd.arg(f(a, "Int!")),
                _ => fd = fd.arg(f(a, "Int!").def(if *name == "b" { "2" } else { "1" })),
            }
        }
        let types = match owner {
            0 => vec![obj("Query", vec![fd])],
            1 => vec![obj("Query", vec![f(&format!("q{name}"), "T")]), obj("T", vec![fd])],
            _ => {
                let own = f(&format!("q{name}"), "I");
                let iface = Fd { shareable: false, ..fd };
                vec![obj("Query", vec![own]), def(Kind::Interface, "I", vec![iface])]
            }
        };
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Input objects: the fields each subgraph gives, or no input object at all.
fn input_fields(c: &mut Case, prop: &str) {
    let n = if c.thorough() { 3 } else { 2 + c.choose(2) };
    let names: &[&str] = if n == 2 || c.thorough() { &["x", "y"] } else { &["x"] };
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let mut fs = vec![];
        let extra = c.flag();
        if extra {
            fs.push(f("k", "Int"));
        }
        for a in names {
            match c.choose(5) {
                0 => {}
                1 => fs.push(f(a, "Int")),
                2 => fs.push(f(a, "Int").def("1")),
                3 => fs.push(f(a, "Int!")),
                _ => fs.push(f(a, "Int!").def("1")),
            }
        }
        let mut types = vec![];
        let mut q = f(&format!("q{name}"), "Int");
        if !fs.is_empty() {
            q = q.arg(f("i", "In"));
            types.push(def(Kind::Input, "In", fs));
        }
        types.push(obj("Query", vec![q]));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Enum values and how the enum is used in each subgraph.
fn enums(c: &mut Case, prop: &str) {
    let n = 2 + c.choose(2);
    let names = if n == 3 { vec!["P", "Q"] } else { vec!["P", "Q", "R"] };
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let values = c.subset(&names);
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut types = vec![];
        if !values.is_empty() {
            let ways = if n == 2 || c.thorough() { 7 } else { 4 };
            let way = c.choose(ways);
            if way & 1 == 1 && way < 4 {
                root.push(f(&format!("out{name}"), "[E!]"));
            }
            if way & 2 == 2 && way < 4 {
                root.push(f(&format!("in{name}"), "Int").arg(f("e", "E!")));
            }
            if way == 4 {
                types.push(def(Kind::Input, &format!("In{name}"), vec![f("e", "[E]")]));
                root.push(f(&format!("in{name}"), "Int").arg(f("i", &format!("In{name}"))));
            }
            if way == 5 {
                types.push(def(Kind::Interface, &format!("If{name}"), vec![f("e", "Int").arg(f("x", "E")), f("o", "E")]));
            }
            if way == 6 {
                types.push(def(Kind::Interface, &format!("If{name}"), vec![f("e", "Int").arg(f("x", "[E!]"))]));
            }
            types.push(def(Kind::Enum, "E", values.iter().map(|v| f(v, "")).collect()));
        }
        types.push(obj("Query", root));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

fn unions(c: &mut Case, prop: &str) {
    let n = 2 + c.choose(2);
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let members = c.subset(&["X", "Y", "Z"]);
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut types = vec![];
        if !members.is_empty() {
            root.push(f(&format!("u{name}"), "U"));
            let mut u = def(Kind::Union, "U", vec![]);
            for m in &members {
                u = u.mem(m);
                types.push(obj(m, vec![f("v", "Int").share()]));
            }
            types.push(u);
        }
        types.push(obj("Query", root));
        let mut s = sub(name, types);
        s.split = n == 2 && c.flag();
        subs.push(s);
    }
    judge(c, prop, &subs);
}

/// Interfaces and their implementers, where each subgraph knows about a part of them.
fn interfaces(c: &mut Case, prop: &str) {
    let n = 2;
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut types = vec![];
        // I { a }, J implements I { a b }, T { a b? }
        let (i, j) = (c.flag(), c.flag());
        if i {
            let mut fs = vec![f("a", "Int")];
            if c.flag() {
                fs.push(f("b", "Int"));
            }
            types.push(def(Kind::Interface, "I", fs));
            root.push(f(&format!("i{name}"), "I"));
        }
        if j {
            let mut t = def(Kind::Interface, "J", vec![f("a", "Int"), f("b", "Int")]);
            if i && c.flag() {
                t = t.imp("I");
            }
            types.push(t);
            root.push(f(&format!("j{name}"), "J"));
        }
        for t in ["T", "S"] {
            if c.flag() {
                let mut d = obj(t, vec![f("a", "Int").share()]);
                if c.flag() {
                    d.fields.push(f("b", "Int").share());
                }
                if i && c.flag() {
                    d = d.imp("I");
                }
                if j && t == "T" && c.flag() {
                    d = d.imp("J");
                }
                types.push(d);
                root.push(f(&format!("{}{name}", t.to_lowercase()), t));
            }
            if !c.thorough() {
                break;
            }
        }
        types.push(obj("Query", root));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Absent,
    Plain,
    Share,
    External,
    Over(&'static str, Option<&'static str>, bool),
}

fn role_field(role: Role) -> Option<Fd> {
    let x = f("x", "Int");
    Some(match role {
        Role::Absent => return None,
        Role::Plain => x,
        Role::Share => x.share(),
        Role::External => Fd { external: true, ..x },
        Role::Over(from, label, share) => Fd { over: Some((from.into(), label.map(str::to_string))), shareable: share, ..x },
    })
}

fn role_subgraphs(c: &mut Case, roles: &[Role], n: usize, owners: usize, v1: bool) -> Vec<Sub> {
    let owner = c.choose(owners);
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let role = *c.pick(roles);
        let x = role_field(role);
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut types = vec![];
        match owner {
            // the query root
            0 => root.extend(x),
            // an entity
            1 => {
                root.push(f(&format!("t{name}"), "T"));
                let mut fs = vec![f("id", "ID!")];
                fs.extend(x);
                types.push(obj("T", fs).key("id"));
            }
            // a plain object
            2 => {
                root.push(f(&format!("t{name}"), "T"));
                let mut fs = vec![f("k", "ID").share()];
                fs.extend(x);
                types.push(obj("T", fs));
            }
            // an object that is shareable as a whole
            3 => {
                if let Some(x) = x {
                    root.push(f(&format!("t{name}"), "T"));
                    types.push(obj("T", vec![f("k", "ID"), x]).share());
                }
            }
            // the field is the key
            4 => {
                if let Some(x) = x {
                    root.push(f(&format!("t{name}"), "T"));
                    types.push(obj("T", vec![f("k", "ID").share(), x]).key("x"));
                }
            }
            // a mutation
            5 => {
                if let Some(x) = x {
                    types.push(obj("Mutation", vec![x]));
                }
            }
            // a subscription
            6 => {
                if let Some(x) = x {
                    types.push(obj("Subscription", vec![x]));
                }
            }
            // a field inside a composite key
            _ => {
                if let Some(x) = x {
                    root.push(f(&format!("t{name}"), "T"));
                    types.push(obj("T", vec![f("o", "O").share()]).key("o { x }"));
                    types.push(obj("O", vec![x]));
                }
            }
        }
        types.push(obj("Query", root));
        let mut s = sub(name, types);
        let plain = matches!(role, Role::Absent | Role::Plain | Role::External);
        if v1 && plain && owner != 3 && c.flag() {
            s.link = Link::V1;
            for t in &mut s.types {
                for x in &mut t.fields {
                    x.shareable = false;
                }
            }
        }
        subs.push(s);
    }
    subs
}

fn roles_pairs(c: &mut Case, prop: &str) {
    use Role::*;
    const R: &[Role] = &[
        Absent,
        Plain,
        Share,
        External,
        Over("a", None, false),
        Over("b", None, false),
        Over("missing", None, false),
        Over("a", None, true),
        Over("b", None, true),
        Over("a", Some("percent(50)"), false),
        Over("b", Some("percent(50)"), true),
        Over("a", Some("percent(100)"), false),
        Over("b", Some("percent(0)"), false),
        Over("a", Some("percent(101)"), false),
        Over("a", Some("percent(-1)"), false),
        Over("a", Some("percent()"), false),
        Over("a", Some("label"), false),
    ];
    let subs = role_subgraphs(c, R, 2, 8, true);
    judge(c, prop, &subs);
}

fn roles_triples(c: &mut Case, prop: &str) {
    use Role::*;
    const R: &[Role] = &[
        Absent,
        Plain,
        Share,
        External,
        Over("a", None, false),
        Over("b", None, false),
        Over("c", None, true),
        Over("a", Some("percent(50)"), false),
        Over("b", Some("percent(100)"), true),
    ];
    let v1 = c.thorough();
    let owners = if v1 { 8 } else { 4 };
    let subs = role_subgraphs(c, R, 3, owners, v1);
    judge(c, prop, &subs);
}

/// @inaccessible on up to three elements.
fn inaccessible(c: &mut Case, prop: &str) {
    let mut a = vec![
        obj(
            "Query",
            vec![
                f("o", "O").arg(f("i", "In")).arg(f("n", "Int")).share(),
                f("u", "U"),
                f("itf", "F").arg(f("e", "E")),
                f("s", "S"),
                f("k", "Int"),
            ],
        ),
        obj("O", vec![f("v", "Int").share(), f("w", "E").share()]).imp("F"),
        obj("P", vec![f("v", "Int").share()]),
        def(Kind::Union, "U", vec![]).mem("O").mem("P"),
        def(Kind::Interface, "F", vec![f("v", "Int")]),
        def(Kind::Enum, "E", vec![f("E1", ""), f("E2", "")]),
        def(Kind::Scalar, "S", vec![]),
        def(Kind::Input, "In", vec![f("x", "Int"), f("e", "E")]),
        obj("Mutation", vec![f("m", "P")]),
    ];
    let b = vec![
        obj("Query", vec![f("o", "O").arg(f("i", "In")).arg(f("n", "Int")).share(), f("kb", "Int")]),
        obj("O", vec![f("v", "Int").share(), f("w", "E").share(), f("z", "Int")]),
        def(Kind::Enum, "E", vec![f("E1", ""), f("E2", "")]),
        def(Kind::Input, "In", vec![f("x", "Int"), f("e", "E")]),
    ];
    let second = c.choose(3);
    let max = if c.thorough() { 4 } else if second == 0 { 3 } else { 2 };
    let mut b = if second == 0 { vec![] } else { b };
    let n_a = mark(&mut a, None);
    let n = n_a + mark(&mut b, None);
    let k = c.choose(max + 1);
    let mut at = 0;
    for i in 0..k {
        let left = n - at;
        if left < k - i {
            c.skip();
        }
        let j = at + c.choose(left - (k - i - 1));
        if j < n_a {
            mark(&mut a, Some(j));
        } else {
            mark(&mut b, Some(j - n_a));
        }
        at = j + 1;
    }
    let mut subs = vec![sub("a", a)];
    if second > 0 {
        subs.push(sub("b", b));
    }
    if second == 2 {
        subs.reverse();
    }
    judge(c, prop, &subs);
}

/// Puts @inaccessible on the n-th element; counts the elements.
fn mark(types: &mut [Def], n: Option<usize>) -> usize {
    let mut i = 0;
    let mut visit = |ds: &mut Vec<D>| {
        if Some(i) == n {
            ds.push(D::Inaccessible);
        }
        i += 1;
    };
    for t in types {
        visit(&mut t.dirs);
        for x in &mut t.fields {
            visit(&mut x.dirs);
            for a in &mut x.args {
                visit(&mut a.dirs);
            }
        }
    }
    i
}

fn menu(place: usize) -> Vec<D> {
    // 0 root type 1 object 2 root field 3 object field 4 argument 5 interface 6 interface field 7 union
    // 8 enum 9 value 10 scalar 11 input 12 input field
    let mut v = vec![D::Tag("t1"), D::Tag("t2"), D::Inaccessible];
    if matches!(place, 0 | 1 | 2 | 3 | 5 | 8 | 10) || place == 6 {
        v.push(D::Authenticated);
        v.push(D::Scopes(vec![vec!["a"]]));
        v.push(D::Scopes(vec![vec!["b", "c"], vec!["d"]]));
        v.push(D::Scopes(vec![vec!["d"], vec!["a"]]));
        v.push(D::Policy(vec![vec!["p"]]));
        v.push(D::Policy(vec![vec!["q", "p"], vec!["r"]]));
        v.push(D::Policy(vec![vec![""], vec!["p", ""]]));
        v.push(D::Scopes(vec![vec![]]));
    }
    if matches!(place, 0..=4 | 8 | 10 | 12) {
        v.push(D::Cost(5));
        v.push(D::Cost(-7));
    }
    if matches!(place, 2 | 3) {
        v.push(D::ListSize(Some(10), vec![], vec![], None));
        v.push(D::ListSize(Some(20), vec!["n"], vec![], Some(false)));
        v.push(D::ListSize(None, vec!["n", "m"], vec!["v"], Some(true)));
        v.push(D::ListSize(None, vec!["m"], vec![], None));
    }
    if matches!(place, 2 | 3 | 4 | 6 | 9 | 12) {
        v.push(D::Deprecated(None));
        v.push(D::Deprecated(Some("old")));
        v.push(D::Deprecated(Some("older")));
    }
    if place == 11 {
        v.push(D::OneOf);
    }
    v
}

fn directed(i: usize, place: usize, ds: Vec<D>, link: Link, split: bool) -> Sub {
    let tag = NAMES[i];
    let at = |p: usize| if p == place { ds.clone() } else { vec![] };
    let fd = |x: Fd, p: usize| Fd { dirs: at(p), ..x };
    let ty = |t: Def, p: usize| Def { dirs: at(p), ..t };
    let v1 = link == Link::V1;
    let share = |x: Fd| if v1 { x } else { x.share() };
    let arg = |n: &str| f(n, "Int");
    let types = vec![
        ty(
            obj(
                "Query",
                vec![
                    fd(share(f("o", "[O]").arg(arg("n0")).arg(arg("n")).arg(arg("m"))), 2),
                    share(f("rest", "[O]").arg(fd(arg("n"), 4)).arg(f("i", "In")).arg(f("e", "E"))),
                    share(f("all", "F")),
                    share(f("u", "U")),
                    share(f("s", "S")),
                    f(&format!("own_{tag}"), "Int"),
                ],
            ),
            0,
        ),
        ty(
            obj("O", vec![fd(share(f("v", "[O]").arg(arg("n0")).arg(arg("n")).arg(arg("m"))), 3), share(f("w", "Int")), share(f("g", "Int"))]).imp("F"),
            1,
        ),
        ty(def(Kind::Interface, "F", vec![fd(f("w", "Int"), 6), f("g", "Int")]), 5),
        obj("P", vec![share(f("v", "Int"))]),
        ty(def(Kind::Union, "U", vec![]).mem("O").mem("P"), 7),
        ty(def(Kind::Enum, "E", vec![fd(f("E1", ""), 9), f("E2", "")]), 8),
        ty(def(Kind::Scalar, "S", vec![]), 10),
        ty(def(Kind::Input, "In", vec![fd(f("x", "Int"), 12), f("y", "Int")]), 11),
    ];
    Sub { link, split, ..sub(tag, types) }
}

const V2: [Link; 4] = [Link::Import, Link::Namespace, Link::As, Link::Alias];

/// Every pair of directives on an element, both in one subgraph or one in each.
fn directives(c: &mut Case, prop: &str) {
    let place = c.choose(13);
    let m = menu(place);
    let d1 = c.pick(&m).clone();
    let d2 = c.pick(&m).clone();
    let once = |d: &D| !matches!(d, D::Tag(_));
    let mut sets = [vec![d1.clone()], vec![d2.clone()]];
    let second = c.choose(3);
    if second == 1 {
        // both in the first subgraph
        if once(&d1) && std::mem::discriminant(&d1) == std::mem::discriminant(&d2) || d1 == d2 {
            c.skip();
        }
        sets = [vec![d1, d2], vec![]];
    } else if second == 2 {
        if once(&d1) && std::mem::discriminant(&d1) == std::mem::discriminant(&d2) || d1 == d2 {
            c.skip();
        }
        sets = [vec![], vec![d1, d2]];
    }
    let [x, y] = sets;
    let subs = [directed(0, place, x, Link::Import, false), directed(1, place, y, Link::Import, false)];
    judge(c, prop, &subs);
}

/// One directive, however the subgraph links federation, in a definition or an extension.
fn links(c: &mut Case, prop: &str) {
    let place = c.choose(13);
    let m = menu(place);
    let d = c.pick(&m).clone();
    let l1 = *c.pick(&V2);
    let split = c.flag();
    let other = c.choose(3);
    let mut subs = vec![directed(0, place, vec![d.clone()], l1, split)];
    if other > 0 {
        let link = if other == 1 { Link::V1 } else { *c.pick(&V2) };
        let ds = if other == 2 && c.flag() { vec![d] } else { vec![] };
        subs.push(directed(1, place, ds, link, !split));
    }
    judge(c, prop, &subs);
}

/// Directives on up to three different elements of one subgraph do not influence each other.
fn placements(c: &mut Case, prop: &str) {
    let d = [D::Authenticated, D::Tag("t"), D::Cost(3), D::Deprecated(Some("r")), D::Scopes(vec![vec!["s"]])];
    let i = c.choose(d.len());
    let mut s = directed(0, 99, vec![], Link::Import, false);
    let ok = |p: usize| menu(p).iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&d[i]));
    let places: Vec<usize> = (0..13).filter(|p| ok(*p)).collect();
    for p in c.subset(&places) {
        let one = directed(0, p, vec![d[i].clone()], Link::Import, false);
        for (t, o) in s.types.iter_mut().zip(one.types) {
            t.dirs.extend(o.dirs);
            for (x, y) in t.fields.iter_mut().zip(o.fields) {
                x.dirs.extend(y.dirs);
                for (a, b) in x.args.iter_mut().zip(y.args) {
                    a.dirs.extend(b.dirs);
                }
            }
        }
    }
    let subs = [s, directed(1, 99, vec![], Link::Import, false)];
    judge(c, prop, &subs);
}

/// The same name as a definition of any kind in each subgraph.
fn kinds(c: &mut Case, prop: &str) {
    let n = 2 + c.choose(2);
    let mut subs = vec![];
    let used = c.flag();
    for name in NAMES.iter().take(n) {
        let k = c.choose(7);
        let v1 = (n == 2 || c.thorough()) && c.flag();
        let mut q = f(&format!("q{name}"), "Int");
        let mut types = vec![];
        let share = |x: Fd| if v1 { x } else { x.share() };
        let fs = vec![share(f("v", "Int"))];
        match k {
            0 => types.push(obj("T", fs)),
            1 => types.push(def(Kind::Interface, "T", vec![f("v", "Int")])),
            2 => {
                types.push(obj("M", fs));
                types.push(def(Kind::Union, "T", vec![]).mem("M"));
            }
            3 => types.push(def(Kind::Enum, "T", vec![f("V", "")])),
            4 => types.push(def(Kind::Scalar, "T", vec![])),
            5 => types.push(def(Kind::Input, "T", vec![f("v", "Int")])),
            _ => {}
        }
        if used && k < 5 {
            q.ty = "T".into();
        } else if used && k == 5 {
            q = q.arg(f("i", "T"));
        }
        types.push(obj("Query", vec![q]));
        subs.push(Sub { link: if v1 { Link::V1 } else { Link::Import }, ..sub(name, types) });
    }
    judge(c, prop, &subs);
}

/// Entities with several keys.
fn keys(c: &mut Case, prop: &str) {
    let n = 2 + (c.thorough() && c.flag()) as usize;
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let ks = c.subset(&["id", "sku code", "o { id }"]);
        let present = !ks.is_empty() || c.flag();
        let mut types = vec![];
        let mut root = vec![f(&format!("q{name}"), "Int")];
        if present {
            // none, the first or all of the keys cannot be resolved
            let unresolvable = if ks.is_empty() { 0 } else { c.choose(2 + (ks.len() > 1) as usize) };
            let v1 = unresolvable == 0 && c.flag();
            let share = |x: Fd| if v1 { x } else { x.share() };
            let mut t = obj(
                "T",
                vec![
                    share(f("id", "ID!")),
                    share(f("sku", "Int!")),
                    share(f("code", "Int!")),
                    share(f("o", "O!")),
                    f(&format!("own_{name}"), "Int"),
                ],
            );
            t.keys = ks.iter().map(|k| (k.to_string(), true)).collect();
            for k in t.keys.iter_mut().take([0, 1, 3][unresolvable]) {
                k.1 = false;
            }
            types.push(t);
            types.push(obj("O", vec![share(f("id", "ID!"))]));
            root.push(f(&format!("t{name}"), "T"));
            types.push(obj("Query", root));
            subs.push(Sub { link: if v1 { Link::V1 } else { Link::Import }, ..sub(name, types) });
        } else {
            types.push(obj("Query", root));
            subs.push(sub(name, types));
        }
    }
    judge(c, prop, &subs);
}

/// Field sets of @key, @requires and @provides, valid or not.
fn field_sets(c: &mut Case, prop: &str) {
    const SETS: &[(&str, &str)] = &[
        ("a", ""),
        ("a b", ""),
        ("o { p }", ""),
        ("a o { p r { p } }", ""),
        ("o { r { r { p } } }", ""),
        ("u { ... on O { p } }", ""),
        ("i { p }", ""),
        ("i { ... on O { r { p } } }", ""),
        ("with(n: 1)", ""),
        ("with(n: 1, e: V)", ""),
        ("missing", "unknown"),
        ("o { missing }", "unknown"),
        ("a { p }", "unknown"),
        ("with(zzz: 1)", "arg"),
        ("with(n: \"s\")", "arg"),
        ("o { p", "syntax"),
        ("", "syntax"),
        ("... on Zzz { p }", "unknown"),
    ];
    let (set, bad) = *c.pick(SETS);
    let role = c.choose(3);
    // a field with arguments cannot be external and usable everywhere
    let external = c.flag();
    let (with_args, abstract_set) = (set.starts_with("with"), set.starts_with("u ") || set.starts_with("i "));
    if role == 0 && external {
        c.skip();
    }
    let e = |x: Fd| Fd { external: role == 1 && external, ..x };
    let fields = || {
        vec![
            f("a", "Int"),
            f("b", "[Int!]!"),
            f("o", "O"),
            f("u", "U"),
            f("i", "F"),
            f("with", "Int").arg(f("n", "Int")).arg(f("e", "E")),
        ]
    };
    let rest = || {
        vec![
            obj("O", vec![f("p", "Int").share(), f("r", "O").share()]).imp("F"),
            def(Kind::Union, "U", vec![]).mem("O"),
            def(Kind::Interface, "F", vec![f("p", "Int")]),
            def(Kind::Enum, "E", vec![f("V", "")]),
        ]
    };
    let owner = || {
        let mut t = vec![obj("Query", vec![f("owner", "T")])];
        let mut fs = vec![f("id", "ID!")];
        fs.extend(fields().into_iter().map(Fd::share));
        t.push(obj("T", fs).key("id"));
        t.extend(rest());
        sub("b", t)
    };
    let mut types = rest();
    let mut fs = vec![f("id", "ID!")];
    let mut root = vec![f("q", "T")];
    match role {
        0 => {
            fs.extend(fields().into_iter().map(Fd::share));
            types.push(obj("T", fs).key("id").key(set));
        }
        1 => {
            fs.extend(fields().into_iter().map(|x| e(if external { x } else { x.share() })));
            fs.push(Fd { requires: Some(set.into()), ..f("r", "Int") });
            types.push(obj("T", fs).key("id"));
        }
        _ => {
            fs.extend(fields().into_iter().map(|x| Fd { external, shareable: !external, ..x }));
            types.push(obj("T", fs).key("id"));
            root.push(Fd { provides: Some(set.into()), ..f("p", "T") });
        }
    }
    let _ = (with_args, abstract_set);
    types.push(obj("Query", root));
    let subs = [sub("a", types), owner()];
    let also = match bad {
        "" => None,
        "unknown" => Some("field set: unknown field"),
        "arg" => Some("field set: argument"),
        _ => Some("field set: syntax"),
    };
    judge_with(c, prop, &subs, also);
}

/// Custom root types.
fn roots(c: &mut Case, prop: &str) {
    let mut subs = vec![];
    for name in NAMES.iter().take(2) {
        let mut types = vec![];
        let mut roots = [None, None, None];
        for (i, default) in ["Query", "Mutation", "Subscription"].into_iter().enumerate() {
            let way = if i == 2 && !c.thorough() { c.choose(2) } else { c.choose(4) };
            let field = |n: &str| f(&format!("{n}_{name}"), "Int");
            let t = match way {
                0 => continue,
                1 => default.to_string(),
                2 => format!("My{default}"),
                // the name of another root type
                _ => {
                    roots[i] = Some("Root".to_string());
                    types.push(obj("Root", vec![field(default), f("self", "Root").share()]));
                    continue;
                }
            };
            if way == 2 {
                roots[i] = Some(t.clone());
            }
            let mut fs = vec![field(&default.to_lowercase())];
            if i < 2 {
                fs.push(f("again", &t).share());
            }
            types.push(obj(&t, fs));
        }
        if roots.iter().filter(|r| r.as_deref() == Some("Root")).count() > 1 {
            c.skip();
        }
        // a schema definition names all roots
        if roots.iter().any(Option::is_some) {
            for (i, d) in ["Query", "Mutation", "Subscription"].into_iter().enumerate() {
                if roots[i].is_none() && types.iter().any(|t| t.name == d) {
                    roots[i] = Some(d.into());
                }
            }
            if roots[0].is_none() {
                c.skip();
            }
        }
        // an object with the default name that is no root
        if roots[0].is_some() && roots[0].as_deref() != Some("Query") && roots[1].is_some() && c.flag() {
            types.push(obj("Thing", vec![f("t", "Int").share(), f("q", roots[0].as_deref().unwrap()).share()]));
        }
        if types.is_empty() {
            c.skip();
        }
        subs.push(Sub { roots, ..sub(name, types) });
    }
    judge(c, prop, &subs);
}

/// Default values of every kind.
fn defaults(c: &mut Case, prop: &str) {
    const D: &[(&str, &[&str])] = &[
        ("Int", &["0", "-1", "2147483647", "null"]),
        ("Float", &["0.5", "1e10", "-3", "-0.0"]),
        ("String", &["\"\"", "\"a\"", "\"q\\\"q\"", "\"b\\\\b\"", "\"n\\nn\"", "\"\\u00e9{}\"", "\"\\u0001\""]),
        ("Boolean", &["true", "false"]),
        ("ID", &["\"x\"", "7"]),
        ("E", &["V", "W"]),
        ("[Int]", &["[]", "[1,2]", "[null]"]),
        ("[[E!]]", &["[[V],[]]"]),
        ("In", &["{}", "{a:1}", "{a:null,b:{a:2}}", "{l:[\"x\"],e:W}"]),
    ];
    let (ty, values) = *c.pick(D);
    let v1 = *c.pick(values);
    let v2 = c.choose(values.len() + 1);
    let place = c.choose(3);
    let mut subs = vec![];
    for (i, v) in [Some(v1), values.get(v2).copied()].into_iter().enumerate() {
        let mut x = f("d", ty);
        x.default = v.map(str::to_string);
        let mut types = vec![
            def(Kind::Enum, "E", vec![f("V", ""), f("W", "")]),
            def(Kind::Input, "In", vec![f("a", "Int"), f("b", "In"), f("l", "[String]"), f("e", "E")]),
        ];
        let own = f(&format!("own{i}"), "Int");
        match place {
            0 => types.push(obj("Query", vec![f("q", "Int").arg(x).share(), own])),
            1 => {
                types.push(def(Kind::Input, "D", vec![x]));
                types.push(obj("Query", vec![f("q", "Int").arg(f("i", "D")).share(), own]));
            }
            _ => {
                types.push(def(Kind::Interface, "I", vec![f("q", "Int").arg(x)]));
                types.push(obj("Query", vec![own]));
            }
        }
        subs.push(sub(NAMES[i], types));
    }
    judge(c, prop, &subs);
}

/// Descriptions, reasons, tags and scopes with any character that needs care.
fn strings(c: &mut Case, prop: &str) {
    const S: &[&str] = &[
        "plain",
        "a \"quoted\" word",
        "trailing quote\"",
        "\"leading quote",
        "back\\slash",
        "trailing backslash\\",
        "two\nlines",
        "  indented\n    more\n  less",
        "ends with newline\n",
        "\nstarts with newline",
        "tab\there",
        "triple \"\"\" quotes",
        "\"\"\"",
        "escaped \\\"\"\" triple",
        "\u{e9}\u{ffe0}",
        "\u{7f}",
        "\\u0041",
        " ",
        "{ # not a comment }",
        "carriage\rreturn",
    ];
    let s = *c.pick(S);
    let place = c.choose(12);
    let two = c.flag();
    let mut types = directed(0, 99, vec![], Link::Import, false).types;
    let d = Some(s.to_string());
    match place {
        0..=6 => {
            let i = [0, 1, 2, 4, 5, 6, 7][place];
            types[i].desc = d;
        }
        7 => types[0].fields[0].desc = d,
        8 => types[0].fields[1].args[0].desc = d,
        9 => types[5].fields[0].desc = d,
        10 => types[7].fields[0].desc = d,
        _ => types[1].fields[0].dirs.push(D::Deprecated(Some(s))),
    }
    let mut subs = vec![sub("a", types)];
    if two {
        subs.insert(0, directed(1, 99, vec![], Link::Import, false));
    }
    judge(c, prop, &subs);
}

/// Descriptions in several subgraphs.
fn descriptions(c: &mut Case, prop: &str) {
    let place = c.choose(11);
    let mut subs = vec![];
    for i in 0..2 {
        let mut s = directed(i, 99, vec![], Link::Import, false);
        let d = c.choose(3);
        let d = (d > 0).then(|| format!("from {}", ["a", "b"][i]));
        let types = &mut s.types;
        match place {
            0..=6 => types[[0, 1, 2, 4, 5, 6, 7][place]].desc = d,
            7 => types[0].fields[0].desc = d,
            8 => types[0].fields[1].args[0].desc = d,
            9 => types[5].fields[0].desc = d,
            _ => types[7].fields[0].desc = d,
        }
        subs.push(s);
    }
    judge(c, prop, &subs);
}

/// Names of subgraphs and of the elements in them.
fn names(c: &mut Case, prop: &str) {
    const N: &[&str] = &["a", "B", "sub-graph", "s1", "two-part-name", "UPPER", "x-1", "x1"];
    let n1 = *c.pick(N);
    let n2 = *c.pick(N);
    if n1 == n2 {
        c.skip();
    }
    const T: &[&str] = &["T", "t", "_T", "T_1", "type", "input", "on", "fragment", "query", "Query2"];
    let t = *c.pick(T);
    const F: &[&str] = &["x", "_x", "X1", "type", "true_", "null_", "on", "fragment", "query", "schema", "implements"];
    let x = *c.pick(F);
    let subs = [
        sub(n1, vec![obj("Query", vec![f(x, t), f("k", "Int").share()]), obj(t, vec![f(x, "Int").arg(f(x, "E")).share()]), def(Kind::Enum, "E", vec![f(x, "")])]),
        sub(n2, vec![obj("Query", vec![f("k", "Int").share()]), obj(t, vec![f(x, "Int").arg(f(x, "E")).share()]), def(Kind::Enum, "E", vec![f(x, "")])]),
    ];
    judge(c, prop, &subs);
}

/// Kind of owner, role, type, argument and directive of one field, together.
fn combined(c: &mut Case, prop: &str) {
    let owner = c.choose(4);
    let thorough = c.thorough();
    let n = 2 + (thorough && c.flag()) as usize;
    let deep = thorough && n == 2;
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut types = vec![];
        let other = if *name == "a" { "b" } else { "a" };
        let role = c.choose(if n == 3 { 5 } else { 6 });
        let mut x = None;
        if role > 0 {
            let ty = *c.pick(if deep { &["Int", "Int!", "[Int]", "[Int!]", "E"][..] } else { &["Int", "Int!", "[Int]"][..] });
            let mut y = f("x", ty);
            match c.choose(if n == 3 { 2 } else { 4 }) {
                0 => {}
                1 => y = y.arg(f("n", "Int")),
                2 => y = y.arg(f("n", "Int!")),
                _ => y = y.arg(f("n", "Int").def("1")).arg(f("m", "[E]")),
            }
            match c.choose(if n == 3 { 2 } else if deep { 6 } else { 4 }) {
                0 => {}
                1 => y.dirs.push(D::Inaccessible),
                2 => {
                    y.dirs.push(D::Tag(if *name == "a" { "ta" } else { "tb" }));
                    y.desc = Some(format!("x of {name}"));
                }
                3 => y.dirs.push(D::Authenticated),
                4 => y.dirs.push(D::Scopes(vec![vec![name]])),
                _ => y.dirs.push(D::Deprecated(Some(name))),
            }
            match role {
                1 => {}
                2 => y = y.share(),
                3 => y.external = owner != 3,
                4 => {
                    y.over = (owner != 3).then(|| (other.to_string(), None));
                    y.shareable = owner != 3;
                }
                _ => y.over = (owner != 3).then(|| (other.to_string(), Some("percent(20)".to_string()))),
            }
            if owner == 3 {
                y.shareable = false;
            }
            x = Some(y);
        }
        match owner {
            0 => root.extend(x),
            1 => {
                let mut fs = vec![f("id", "ID!")];
                fs.extend(x);
                types.push(obj("T", fs).key("id"));
                root.push(f(&format!("t{name}"), "T"));
            }
            2 => {
                let mut fs = vec![f("k", "ID").share()];
                fs.extend(x);
                types.push(obj("T", fs));
                root.push(f(&format!("t{name}"), "T"));
            }
            _ => {
                if let Some(x) = x {
                    let mut implementer = x.clone();
                    implementer.shareable = true;
                    implementer.dirs.clear();
                    types.push(def(Kind::Interface, "I", vec![x]));
                    types.push(obj("T", vec![implementer]).imp("I"));
                    root.push(f(&format!("i{name}"), "I"));
                }
            }
        }
        types.push(obj("Query", root));
        types.push(def(Kind::Enum, "E", vec![f("V", "")]));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Many of everything: a limit that is too small somewhere, or a scan that stops early, shows only there.
fn sizes(c: &mut Case, prop: &str) {
    let shape = c.choose(9);
    let n: usize = *c.pick(if shape == 0 { &[4, 9, 17, 40][..] } else { &[9, 17, 33, 65, 130, 260][..] });
    if n > 65 && !c.thorough() && shape > 3 {
        c.skip();
    }
    let first = c.flag();
    let id = |i: usize| format!("x{i}");
    let own = |i: usize| f(&format!("own{i}"), "Int");
    let mut subs = vec![];
    match shape {
        // Subgraphs of one entity, each with a field of its own and those they share.
        0 => {
            for i in 0..n {
                let mut t = obj("T", vec![f("id", "ID!"), f("shared", if i == n / 2 { "Int" } else { "Int!" }).share(), f(&id(i), "Int")]).key("id");
                if i % 3 == 2 {
                    t = t.key(&format!("k{}", i % 4));
                    t.fields.push(f(&format!("k{}", i % 4), "Int").share());
                }
                let q = f("q", "T").arg(f("a", if i + 1 == n { "Int!" } else { "Int" })).share();
                let mut v = def(Kind::Enum, "E", vec![f(&format!("V{}", i % 7), ""), f("W", "")]);
                if i == n - 2 {
                    v.dirs.push(D::Tag("t"));
                }
                subs.push(sub(&format!("s{i}"), vec![obj("Query", vec![q, own(i), f(&format!("e{i}"), "E")]), t, v]));
            }
        }
        // Fields, with arguments.
        1 => {
            for s in 0..2 {
                let fields = (0..n).map(|i| {
                    let mut x = f(&id(i), if (i + s) % 2 == 0 { "Int!" } else { "Int" }).share();
                    if i + 1 == n {
                        for j in 0..n {
                            x = x.arg(f(&format!("a{j}"), if (j + s) % 2 == 0 { "Int!" } else { "Int" }));
                        }
                    }
                    x
                });
                let fields: Vec<Fd> = fields.skip(s * 2).collect();
                subs.push(sub(NAMES[s], vec![obj("Query", vec![own(s), f("t", "T").share()]), obj("T", fields)]));
            }
        }
        // Types, each the type of the field of another.
        2 => {
            for s in 0..2 {
                let mut types: Vec<Def> = (0..n).map(|i| obj(&format!("T{i}"), vec![f("v", "Int").share(), f("next", &format!("T{}", (i + 1) % n)).share()])).collect();
                types.push(obj("Query", vec![own(s), f("t", "T0").share()]));
                subs.push(sub(NAMES[s], types));
            }
        }
        // Root fields of one and of both.
        3 => {
            for s in 0..2 {
                let mut fields: Vec<Fd> = (0..n).map(|i| f(&id(i), "Int").share()).collect();
                fields.extend((0..n).map(|i| f(&format!("{}{i}", NAMES[s]), "String").arg(f("n", "Int"))));
                subs.push(sub(NAMES[s], vec![obj("Query", fields)]));
            }
        }
        // Values of an enum, for output, and for input as well.
        4 => {
            for s in 0..2 {
                let e = def(Kind::Enum, "E", (s * 2..n + s * 2).map(|i| f(&format!("V{i}"), "")).collect());
                let input = def(Kind::Enum, "F", (s * 2..n + s * 2).map(|i| f(&format!("V{i}"), "")).collect());
                subs.push(sub(NAMES[s], vec![obj("Query", vec![own(s), f("e", "E").arg(f("f", "F")).share()]), e, input]));
            }
        }
        // Members of a union, and implementers of an interface.
        5 => {
            for s in 0..2 {
                let mut u = def(Kind::Union, "U", vec![]);
                let mut types = vec![def(Kind::Interface, "I", vec![f("v", "Int")])];
                for i in s * 2..n + s * 2 {
                    u = u.mem(&format!("T{i}"));
                    types.push(obj(&format!("T{i}"), vec![f("v", "Int").share()]).imp("I"));
                }
                types.extend([u, obj("Query", vec![own(s), f("u", "U").share(), f("i", "I").share()])]);
                subs.push(sub(NAMES[s], types));
            }
        }
        // Fields of an input object.
        6 => {
            for s in 0..2 {
                let i = def(Kind::Input, "In", (s * 2..n + s * 2).map(|i| f(&id(i), if (i + s) % 2 == 0 && (2..n).contains(&i) { "Int!" } else { "Int" })).collect());
                subs.push(sub(NAMES[s], vec![obj("Query", vec![own(s), f("q", "Int").arg(f("i", "In")).share()]), i]));
            }
        }
        // Keys, and fields of a key.
        7 => {
            for s in 0..2 {
                let mut t = obj("T", (0..n).map(|i| f(&id(i), "ID!").share()).collect());
                for i in 0..n {
                    if (i + s) % 3 != 0 {
                        t = t.key(&id(i));
                    }
                }
                t = t.key(&(0..n).map(id).collect::<Vec<_>>().join(" "));
                subs.push(sub(NAMES[s], vec![obj("Query", vec![own(s), f("t", "T").share()]), t]));
            }
        }
        // Scopes and policies on both sides.
        _ => {
            const A: [&str; 16] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15"];
            let k = n.min(12);
            for s in 0..2 {
                let lists: Vec<Vec<&'static str>> = (0..k).map(|i| (0..=(i % 3)).map(|j| A[(i * 5 + j * 3 + s * 2) % 16]).collect()).collect();
                let d = if n % 2 == 1 && n < 33 { D::Scopes(lists) } else { D::Policy(lists) };
                let tags = A.iter().skip(s * 2).take(k).map(|t| D::Tag(t));
                let mut x = f("x", "Int").dir(d).share();
                x.dirs.extend(tags);
                subs.push(sub(NAMES[s], vec![obj("Query", vec![own(s), x])]));
            }
        }
    }
    if first && shape > 0 {
        subs.reverse();
    }
    if first && shape == 0 {
        for s in &mut subs {
            s.split = true;
        }
    }
    judge(c, prop, &subs);
}

/// @shareable, @external and @inaccessible on a whole type, next to what its fields say themselves.
fn whole_types(c: &mut Case, prop: &str) {
    let entity = c.flag();
    let mut subs = vec![];
    for name in NAMES.iter().take(2) {
        let mut fs = vec![];
        let key = entity && !c.flag();
        if entity {
            fs.push(if key { f("id", "ID!") } else { f("id", "ID!").share() });
        }
        let x = f("x", "R");
        match c.choose(7) {
            0 => {}
            1 => fs.push(x),
            2 => fs.push(x.share()),
            3 => fs.push(Fd { external: true, ..x }),
            4 => fs.push(Fd { requires: Some("y".into()), ..x }),
            5 => fs.push(Fd { provides: Some("v".into()), ..x }),
            _ => fs.push(x.dir(D::Inaccessible)),
        }
        match c.choose(3) {
            0 => {}
            1 => fs.push(f("y", "Int").share()),
            _ => fs.push(Fd { external: true, ..f("y", "Int") }),
        }
        if fs.iter().any(|x| x.requires.is_some()) && !fs.iter().any(|x| x.name == "y") || fs.is_empty() {
            c.skip();
        }
        let mut t = obj("T", fs);
        if key {
            t = t.key("id");
        }
        match c.choose(4) {
            0 => {}
            1 => t.shareable = true,
            2 => t.external = true,
            _ => t.dirs.push(D::Inaccessible),
        }
        let hidden = t.dirs.contains(&D::Inaccessible);
        let mut own = f(&format!("t{name}"), "T");
        if hidden {
            own.dirs.push(D::Inaccessible);
        }
        subs.push(sub(name, vec![obj("Query", vec![f(&format!("q{name}"), "Int"), own]), t, obj("R", vec![f("v", "Int").share()])]));
    }
    // an inaccessible type hides the fields of that type everywhere
    if subs.iter().any(|s| s.types[1].dirs.contains(&D::Inaccessible)) {
        for s in &mut subs {
            let own = &mut s.types[0].fields[1];
            if own.dirs.is_empty() {
                own.dirs.push(D::Inaccessible);
            }
        }
    }
    judge(c, prop, &subs);
}

/// One use of a type that one of the subgraphs hides, itself hidden here and there.
fn hidden_uses(c: &mut Case, prop: &str) {
    let place = c.choose(7);
    let n = 1 + c.choose(2);
    let mut subs = vec![];
    for name in NAMES.iter().take(n) {
        let (ty, element, parent) = (c.flag(), c.flag(), c.flag());
        let hide = |ds: &mut Vec<D>, on: bool| {
            if on {
                ds.push(D::Inaccessible);
            }
        };
        let mut root = vec![f(&format!("q{name}"), "Int")];
        let mut e = def(Kind::Enum, "E", vec![f("V", "")]);
        hide(&mut e.dirs, ty);
        let mut types = vec![e];
        match place {
            // a field of an object, of an interface
            0 | 2 => {
                let mut x = f("x", "E");
                hide(&mut x.dirs, element);
                let mut t = if place == 0 { obj("T", vec![x.share(), f("o", "Int").share()]) } else { def(Kind::Interface, "T", vec![x, f("o", "Int")]) };
                hide(&mut t.dirs, parent);
                types.push(t);
            }
            // an argument
            1 | 3 => {
                let mut x = f("x", "E");
                hide(&mut x.dirs, element);
                let mut fd = f("f", "Int").arg(x);
                hide(&mut fd.dirs, parent);
                types.push(if place == 1 { obj("T", vec![fd.share(), f("o", "Int").share()]) } else { def(Kind::Interface, "T", vec![fd, f("o", "Int")]) });
            }
            // a field of an input object
            4 => {
                let mut x = f("x", "[E!]");
                hide(&mut x.dirs, element);
                let mut t = def(Kind::Input, "T", vec![x, f("o", "Int")]);
                hide(&mut t.dirs, parent);
                types.push(t);
            }
            // a field of the query root
            5 => {
                let mut x = f("x", "E!");
                hide(&mut x.dirs, element);
                root.push(x.share());
                if parent {
                    c.skip();
                }
            }
            // an implementer that has not got what a hidden or visible interface asks for
            _ => {
                let mut i = def(Kind::Interface, "I", vec![f("o", "Int"), f("i", "Int")]);
                hide(&mut i.dirs, element);
                let mut t = obj("T", vec![f("o", "Int").share()]).imp("I");
                if c.flag() {
                    t.fields.push(f("i", "Int").share());
                }
                hide(&mut t.dirs, parent);
                types.push(i);
                types.push(t);
            }
        }
        types.push(obj("Query", root));
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Interfaces that implement several interfaces.
fn interface_chains(c: &mut Case, prop: &str) {
    let mut subs = vec![];
    for name in NAMES.iter().take(2) {
        let mut types = vec![obj("Query", vec![f(&format!("q{name}"), "Int")])];
        let fields = |n: usize| ["a", "b", "c"].iter().take(n).map(|x| f(x, "Int")).collect::<Vec<_>>();
        if c.flag() {
            types.push(def(Kind::Interface, "A", fields(1)));
            types.push(def(Kind::Interface, "B", fields(1)));
            let mut k = def(Kind::Interface, "C", fields(2));
            k.implements = c.subset(&["A", "B"]).into_iter().map(str::to_string).collect();
            types.push(k);
            let mut d = def(Kind::Interface, "D", fields(3));
            d.implements = c.subset(&["A", "B", "C"]).into_iter().map(str::to_string).collect();
            types.push(d);
            if c.flag() {
                let mut t = obj("T", fields(3).into_iter().map(Fd::share).collect());
                t.implements = c.subset(&["B", "C", "D"]).into_iter().map(str::to_string).collect();
                types.push(t);
            }
        }
        subs.push(sub(name, types));
    }
    judge(c, prop, &subs);
}

/// Names of two or three subgraphs: which are accepted, and that they stay apart.
fn subgraph_names(c: &mut Case, prop: &str) {
    const N: &[&str] = &[
        "a", "A", "ab", "a-b", "A-B", "aB", "a1", "1a", "a-", "-a", "a--b", "", " a", "a b", "a_b", "_a", "a.b", "a/b", "\u{e9}", "a\u{e9}", "\u{df}", "SS", "\u{131}", "i", "a\u{661}",
        "k", "\u{212a}",
    ];
    let n = 2 + c.choose(2);
    let mut names: Vec<&str> = vec![];
    for _ in 0..n {
        let x = if names.len() < 2 { *c.pick(N) } else { *c.pick(&["a", "B", "a-b", "i"]) };
        names.push(x);
    }
    let valid = |s: &str| s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
    let mut also = names.iter().any(|s| !valid(s)).then_some("subgraph name");
    if names.iter().enumerate().any(|(i, x)| names[..i].iter().any(|y| y.eq_ignore_ascii_case(x))) {
        also = Some("two subgraphs of the same name");
    }
    let subs: Vec<Sub> = names.iter().enumerate().map(|(i, n)| sub(n, vec![obj("Query", vec![f("k", "Int").share(), f(&format!("own{i}"), "Int")])])).collect();
    judge_with(c, prop, &subs, also);
}

const SPACES: &[Space] = &[
    ("sizes", sizes, ALL),
    ("everything about one field", combined, ALL),
    ("types of an element in two subgraphs", wrapping_pairs, ALL),
    ("types of an element in three subgraphs", wrapping_triples, ALL),
    ("fields of a type", object_fields, ALL),
    ("arguments of a field", arguments, ALL),
    ("fields of an input object", input_fields, ALL),
    ("values of an enum", enums, ALL),
    ("members of a union", unions, ALL),
    ("interfaces and implementers", interfaces, ALL),
    ("roles of a field in two subgraphs", roles_pairs, ALL),
    ("roles of a field in three subgraphs", roles_triples, ALL),
    ("@inaccessible elements", inaccessible, ALL),
    ("uses of an @inaccessible type", hidden_uses, ALL),
    ("directives of a whole type", whole_types, ALL),
    ("interfaces of interfaces", interface_chains, ALL),
    ("pairs of directives on an element", directives, ALL),
    ("directives and federation links", links, ALL),
    ("one directive on several elements", placements, ALL),
    ("kinds of a definition", kinds, ALL),
    ("entity keys", keys, ALL),
    ("field sets", field_sets, ALL),
    ("root types", roots, ALL),
    ("default values", defaults, ALL),
    ("strings", strings, ALL),
    ("descriptions", descriptions, ALL),
    ("names", names, ALL),
    ("names of subgraphs", subgraph_names, ALL),
];

fn run(k: &Check, prop: &'static str) {
    k.assume("the order-insensitive SDL reader h/sdl (cynic-parser) reads the rendered supergraph");
    crate::ext::run(k, prop);
    for (name, body, props) in SPACES {
        if props.contains(&prop) {
            k.space(name, |c| body(c, prop));
        }
    }
}

pub fn c01(k: &Check) {
    run(k, "C01")
}
pub fn c02(k: &Check) {
    run(k, "C02")
}
pub fn c03(k: &Check) {
    run(k, "C03")
}
pub fn c04(k: &Check) {
    run(k, "C04")
}
pub fn c05(k: &Check) {
    run(k, "C05")
}
pub fn c06(k: &Check) {
    run(k, "C06")
}
pub fn c07(k: &Check) {
    run(k, "C07")
}
pub fn c08(k: &Check) {
    run(k, "C08")
}
