//! I01: programs made of several files
use super::cli::Dir;
use super::files::any_curve;
use crate::run::*;
use num_bigint::BigUint;
use serde_json::json;
use std::collections::BTreeMap;
use typed_arena::Arena;
use vlib::dynf::{self, D};
use vlib::engine::*;
use vlib::prng::Rng;

/// what a name can stand for; `usize` is the module which defines it
#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    Const(usize),
    /// `f(field) -> field`
    Fun(usize),
    /// three functions of the same name for field, bool and u32
    Over(usize),
    Struct(usize),
    /// `mk(field) -> S`
    Mk(usize),
    /// `get(S) -> field`
    Get(usize),
    /// generic over a length
    Gen(usize),
}

impl It {
    fn module(&self) -> usize {
        match *self {
            It::Const(m) | It::Fun(m) | It::Over(m) | It::Struct(m) | It::Mk(m) | It::Get(m) | It::Gen(m) => m,
        }
    }
}

#[derive(Clone, Debug)]
struct Mod {
    path: Vec<String>,
    k: u64,
    /// symbols by their name here
    names: BTreeMap<String, It>,
    imports: Vec<String>,
    targets: Vec<usize>,
    /// terms of the constant and of the function
    kterm: Option<String>,
    fterms: Vec<(String, u64)>,
    mul: u64,
}

struct W {
    mods: Vec<Mod>,
    p: BigUint,
}

impl W {
    fn konst(&self, m: usize) -> BigUint {
        let x = &self.mods[m];
        let t = x.kterm.as_ref().map_or(BigUint::from(0u32), |n| self.konst(x.names[n].module()));
        (t + x.k) % &self.p
    }
    fn fun(&self, m: usize, a: &BigUint) -> BigUint {
        let x = &self.mods[m];
        let mut r = a * x.mul + self.konst(m);
        for (n, c) in &x.fterms {
            r += self.item(x.names[n], &((a + *c) % &self.p)) * 3u32;
        }
        r % &self.p
    }
    /// the value of the expression `use_of` makes of a symbol
    fn item(&self, i: It, a: &BigUint) -> BigUint {
        let k = |m: usize| self.mods[m].k;
        match i {
            It::Const(m) => self.konst(m) + a,
            It::Fun(m) => self.fun(m, a),
            It::Over(m) => (a + k(m)) + (if k(m) % 2 == 0 { 1u64 } else { 0 } * 7) + ((k(m) + 5) % 1000),
            It::Struct(m) | It::Mk(m) | It::Get(m) => (a + k(m)) * self.mods[m].mul + k(m),
            It::Gen(m) => a * 3u32 + k(m) * 3,
        }
    }
    fn has(&self, m: usize, i: It) -> Option<String> {
        self.mods[m].names.iter().find(|(_, x)| **x == i).map(|(n, _)| n.clone())
    }
    /// an expression of type field which uses the symbol, if it can be used on its own
    fn use_of(&self, m: usize, n: &str, a: &str) -> Option<String> {
        Some(match self.mods[m].names[n] {
            It::Const(_) => format!("({} + {})", n, a),
            It::Fun(_) => format!("{}({})", n, a),
            It::Over(d) => format!("({0}({1}) + (if {0}({2}) {{ 7 }} else {{ 0 }}) + {0}(5u32))", n, a, self.mods[d].k % 2 == 0),
            It::Struct(d) => {
                let g = self.has(m, It::Get(d))?;
                format!("{}({} {{ x: {} + {}, y: {} }})", g, n, a, self.mods[d].k, self.mods[d].k)
            }
            It::Mk(d) => match self.has(m, It::Get(d)) {
                Some(g) => format!("{}({}({}))", g, n, a),
                None => format!("({0}({1}).x * {2} + {0}({1}).y)", n, a, self.mods[d].mul),
            },
            It::Get(d) => {
                let k = self.has(m, It::Mk(d))?;
                format!("{}({}({}))", n, k, a)
            }
            It::Gen(_) => format!("{}([{1}, {1}, {1}])", n, a),
        })
    }
    fn own(&self, m: usize) -> Vec<(String, It)> {
        if m == 0 {
            return vec![];
        }
        vec![
            ("K".into(), It::Const(m)),
            ("f".into(), It::Fun(m)),
            ("o".into(), It::Over(m)),
            ("S".into(), It::Struct(m)),
            ("mk".into(), It::Mk(m)),
            ("get".into(), It::Get(m)),
            ("g".into(), It::Gen(m)),
        ]
    }
    fn render(&self, m: usize) -> String {
        let x = &self.mods[m];
        let mut s = x.imports.join("\n");
        s.push('\n');
        if m > 0 {
            s.push_str(&format!(
                "const field K = {}{};\nstruct S {{\n    field x;\n    field y;\n}}\n",
                x.k,
                x.kterm.as_ref().map_or(String::new(), |n| format!(" + {}", n))
            ));
            s.push_str(&format!("def mk(field va) -> S {{\n    return S {{ x: va + {}, y: {} }};\n}}\n", x.k, x.k));
            s.push_str(&format!("def get(S vs) -> field {{\n    return vs.x * {} + vs.y;\n}}\n", x.mul));
            s.push_str(&format!(
                "def o(field va) -> field {{\n    return va + {};\n}}\ndef o(bool va) -> bool {{\n    return va;\n}}\ndef o(u32 va) -> field {{\n    return {} + {};\n}}\n",
                x.k,
                (x.k + 5) % 1000,
                "if va == 5u32 { 0 } else { 1 }"
            ));
            s.push_str(&format!(
                "def g<VN>(field[VN] va) -> field {{\n    field mut vr = 0;\n    for u32 vi in 0..VN {{\n        vr = vr + va[vi] + {};\n    }}\n    return vr;\n}}\n",
                x.k
            ));
            let mut e = format!("va * {} + K", x.mul);
            for (n, c) in &x.fterms {
                e.push_str(&format!(" + {} * 3", self.use_of(m, n, &format!("(va + {})", c)).unwrap()));
            }
            s.push_str(&format!("def f(field va) -> field {{\n    return {};\n}}\n", e));
            s.push_str("def main(field va) -> field {\n    return f(va);\n}\n");
        }
        s
    }
}

fn relative(r: &mut Rng, from: &[String], to: &[String], dirs: &[Vec<String>]) -> String {
    // the directories of both
    let fd = &from[..from.len() - 1];
    let mut up = vec![];
    let mut common = 0;
    while common < fd.len() && common + 1 < to.len() && fd[common] == to[common] {
        common += 1;
    }
    // possibly a longer way
    let common = r.range(0, common);
    for _ in common..fd.len() {
        up.push("..".to_string());
    }
    let mut p: Vec<String> = up;
    p.extend(to[common..to.len() - 1].iter().cloned());
    if r.chance(1, 4) {
        // into a directory below and back
        let here = &to[..to.len() - 1];
        if let Some(d) = dirs.iter().find(|d| d.len() == here.len() + 1 && d.starts_with(here)) {
            p.push(d.last().unwrap().clone());
            p.push("..".into());
        }
    }
    if r.chance(1, 5) {
        p.push(".".into());
    }
    p.push(to.last().unwrap().clone());
    let mut s = p.join("/");
    if !s.starts_with("..") || r.chance(1, 4) {
        s = format!("./{}", s);
    }
    if r.chance(1, 3) {
        s.push_str(".zok");
    }
    s
}

fn build(r: &mut Rng, p: &BigUint) -> W {
    let n = r.range(2, 7);
    let dirs: Vec<Vec<String>> = ["", "d", "d/e", "g", "g/d"].iter().map(|s| s.split('/').filter(|x| !x.is_empty()).map(String::from).collect()).collect();
    let mut w = W { mods: vec![], p: p.clone() };
    let mut used: Vec<Vec<String>> = vec![];
    for i in 0..n {
        let path = loop {
            let mut d = if i == 0 { dirs[r.below(3)].clone() } else { r.pick(&dirs).clone() };
            d.push(r.pick(&["a", "b", "main", "lib"]).to_string());
            if !used.contains(&d) {
                break d;
            }
        };
        used.push(path.clone());
        w.mods.push(Mod { path, k: r.range(1, 900) as u64, names: BTreeMap::new(), imports: vec![], targets: vec![], kterm: None, fterms: vec![], mul: r.range(1, 9) as u64 });
    }
    for m in (0..n).rev() {
        let mut names: BTreeMap<String, It> = w.own(m).into_iter().collect();
        let later: Vec<usize> = (m + 1..n).collect();
        let mut imports = vec![];
        let mut targets = vec![];
        if !later.is_empty() {
            let k = if m == 0 { r.range(1, 2 * later.len() + 1) } else { r.range(0, 3) };
            for _ in 0..k {
                let t = *r.pick(&later);
                let path = relative(r, &w.mods[m].path, &w.mods[t].path, &dirs);
                let stem = w.mods[t].path.last().unwrap().clone();
                let mut free = |r: &mut Rng, names: &BTreeMap<String, It>, orig: &str, must: bool| -> Option<String> {
                    if !names.contains_key(orig) && orig != "main" && r.chance(1, 2) {
                        return Some(orig.to_string());
                    }
                    if !must && r.chance(1, 6) {
                        return None;
                    }
                    // names of other modules' symbols, or fresh ones
                    (0..20).map(|_| r.pick(&["K", "f", "g", "mk", "get", "S", "o", "x1", "y2", "Zed", "a", "b", "lib", "h3", "w4", "v5"]).to_string()).find(|x| !names.contains_key(x) && x != "main")
                };
                if r.chance(1, 6) {
                    // legacy: the main function
                    let explicit = names.contains_key(&stem) || stem == "main" || r.chance(1, 2);
                    let alias = if explicit { free(r, &names, &stem, true) } else { Some(stem.clone()) };
                    if let Some(a) = alias {
                        targets.push(t);
                        imports.push(if explicit { format!("import \"{}\" as {};", path, a) } else { format!("import \"{}\";", path) });
                        names.insert(a, It::Fun(t));
                    }
                    continue;
                }
                let mut list = vec![];
                let all: Vec<(String, It)> = w.mods[t].names.iter().map(|(a, b)| (a.clone(), *b)).collect();
                for _ in 0..r.range(1, 5) {
                    let (orig, it) = if r.chance(1, 8) { ("main".to_string(), It::Fun(t)) } else { r.pick(&all).clone() };
                    if let Some(a) = free(r, &names, &orig, false) {
                        list.push(if a == orig { orig.clone() } else { format!("{} as {}", orig, a) });
                        names.insert(a, it);
                    }
                }
                if !list.is_empty() {
                    targets.push(t);
                    imports.push(format!("from \"{}\" import {};", path, list.join(", ")));
                }
            }
        }
        w.mods[m].names = names.clone();
        w.mods[m].imports = imports;
        w.mods[m].targets = targets;
        let own: Vec<String> = w.own(m).into_iter().map(|x| x.0).collect();
        let foreign: Vec<String> = names.keys().filter(|k| !own.contains(k)).cloned().collect();
        let consts: Vec<String> = foreign.iter().filter(|k| matches!(names[*k], It::Const(_))).cloned().collect();
        if !consts.is_empty() && m > 0 {
            w.mods[m].kterm = Some(r.pick(&consts).clone());
        }
        for f in foreign {
            if w.use_of(m, &f, "a").is_some() && (m == 0 || r.chance(2, 3)) {
                let c = r.range(0, 5) as u64;
                w.mods[m].fterms.push((f, c));
            }
        }
    }
    w
}

fn i01(ctx: &mut Ctx, idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let p = curve.p();
    let mut r = ctx.rng.clone();
    let w = build(&mut r, &p);
    ctx.rng = r;
    let d = Dir::new(ctx);
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let m0 = &w.mods[0];
    let mut main = w.render(0);
    let terms: Vec<String> = m0.fterms.iter().map(|(n, c)| w.use_of(0, n, &format!("(arg + {})", c)).unwrap()).collect();
    if terms.is_empty() {
        return ctx.count("nothing_imported");
    }
    main.push_str(&format!("def main(field arg) -> field[{}] {{\n    return [\n        {}\n    ];\n}}\n", terms.len(), terms.join(",\n        ")));
    let name = |m: usize| format!("{}.zok", w.mods[m].path.join("/"));
    files.insert(name(0), main);
    for m in 1..w.mods.len() {
        files.insert(name(m), w.render(m));
    }
    // directories exist also where no file is
    for x in ["d/e/keep", "g/d/keep"] {
        d.put(x, "");
    }
    let show = |f: &BTreeMap<String, String>| f.iter().map(|(n, s)| format!("==== {}\n{}", n, s)).collect::<String>();
    // reached modules, in the order of the imports
    let reach = {
        let mut seen = vec![0usize];
        let mut i = 0;
        while i < seen.len() {
            for t in &w.mods[seen[i]].targets {
                if !seen.contains(t) {
                    seen.push(*t);
                }
            }
            i += 1;
        }
        seen
    };
    let main_path = d.path(&name(0));
    let kind = idx % 5;
    if kind > 0 {
        for (n, s) in &files {
            d.put(n, s);
        }
        ctx.case = json!({"files": files, "main": name(0), "curve": curve.name()});
        let arena = Arena::new();
        let c = match compile_file::<D>(&main_path, &arena) {
            Ok(c) => c,
            Err(e) => return ctx.violation(&format!("refused:{}", show(&files)), format!("the program of {} was refused: {:?}\n{}", name(0), e, show(&files))),
        };
        ctx.eval();
        for _ in 0..3 {
            let a = match ctx.rng.below(3) {
                0 => BigUint::from(ctx.rng.below(10)),
                1 => &p - (1 + ctx.rng.below(5)) as u32,
                _ => ctx.rng.big_below(&p),
            };
            let want: Vec<BigUint> = m0.fterms.iter().map(|(n, c)| w.item(m0.names[n], &((&a + *c) % &p)) % &p).collect();
            let e = execute(&c.prog, &[a.clone()]);
            let got = e.ok().and_then(|w| outputs(w, want.len()));
            ctx.eval();
            ctx.nontrivial((&files, &a));
            if got.as_ref() != Some(&want) {
                return ctx.violation(
                    &format!("value:{}", show(&files)),
                    format!("main({}) gives {:?} ({}), expected {:?} over {}\n{}", a, got, e.show(), want, curve.name(), show(&files)),
                );
            }
        }
        ctx.count("executed");
        for _ in 0..reach.len() {
            ctx.count("modules_reached");
        }
        let f = files.clone();
        ctx.sample(|| json!({"files": f, "curve": curve.name()}));
        return;
    }
    // one thing is wrong
    let m = *ctx.rng.pick(&reach);
    let mut s = files[&name(m)].clone();
    let at = w.mods[m].path.last().unwrap().clone();
    let own_main = if m == 0 { "" } else { "x" };
    let (what, line): (&str, String) = match ctx.rng.below(9) {
        0 => ("an import of a missing symbol", format!("from \"./{}\" import nothing as zz;", "qq")),
        1 => ("an import of a missing file", "from \"./nothing_here\" import f as zz;".into()),
        2 => ("an import of a directory", "from \"./sub.zok\" import f as zz;".into()),
        3 => ("an import of itself", format!("from \"./{}\" import main as zz;", at)),
        4 => ("an import of a missing embed", "from \"EMBED\" import nothing as zz;".into()),
        5 => ("two imports of one name", "from \"./qq\" import one as zz;\nfrom \"./qq\" import Two as zz;".into()),
        6 => ("an import of a broken file", "from \"./broken\" import one as zz;".into()),
        7 => ("a cycle of two files", format!("from \"./cyc{}\" import one as zz;", own_main)),
        _ => ("an import and a definition of one name", "from \"./qq\" import one as zz;\nconst field zz = 1;".into()),
    };
    let dir = w.mods[m].path[..w.mods[m].path.len() - 1].join("/");
    let here = |f: &str| if dir.is_empty() { f.to_string() } else { format!("{}/{}", dir, f) };
    d.put(&here("sub.zok/keep"), "");
    files.insert(here("qq.zok"), "def one(field a) -> field {\n    return a;\n}\nstruct Two {\n    field x;\n}\n".into());
    files.insert(here("broken.zok"), "def one(field a) -> field {\n    return true;\n}\n".into());
    files.insert(here(&format!("cyc{}.zok", own_main)), format!("from \"./{}\" import main as again;\ndef one(field a) -> field {{\n    return a;\n}}\n", at));
    s = format!("{}\n{}", line, s);
    files.insert(name(m), s);
    for (n, s) in &files {
        d.put(n, s);
    }
    ctx.case = json!({"files": files, "main": name(0), "curve": curve.name()});
    let arena = Arena::new();
    let r = compile_file::<D>(&main_path, &arena);
    ctx.eval();
    ctx.nontrivial(&files);
    let sig = |k: &str| format!("{}:{}", k, show(&files));
    match r {
        Ok(_) => ctx.violation(&sig("accepted"), format!("{} in {} was accepted\n{}", what, name(m), show(&files))),
        Err(e) if e.is_panic() => ctx.violation(&sig("panic"), format!("{} in {}: {:?}\n{}", what, name(m), e, show(&files))),
        Err(e) => {
            // the error is reported in the file where it is
            let f = if what.contains("broken") {
                here("broken.zok")
            } else if what.contains("cycle") {
                here(&format!("cyc{}.zok", own_main))
            } else {
                name(m)
            };
            let t = e.text().to_string();
            if !t.contains(&format!("{}: ", d.path(&f))) {
                return ctx.violation(&sig("where"), format!("{} in {}: reported as {:?}, but not in {}\n{}", what, name(m), t, f, show(&files)));
            }
            ctx.count("refused");
            ctx.count(&what.replace(' ', "_"));
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "I01",
        level: "exploration",
        rule: "a case is a program of several files; non-trivial cases are distinct (files, input) pairs whose outputs were compared, or distinct wrong programs",
        assumptions: &["the generator's own reading of which definition each name stands for is right"],
        quick: 8000,
        thorough: 150_000,
        quick_s: 45,
        thorough_s: 800,
        run: i01,
        require: &["executed", "refused", "a_cycle_of_two_files", "an_import_of_itself", "an_import_and_a_definition_of_one_name"],
    }]
}
