//! X01, X02: the command line program, as a user runs it.
use super::files::{any_curve, parse_r1cs, parse_wtns};
use crate::run::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::json;
use std::fs;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use typed_arena::Arena;
use vlib::dynf::{self, D};
use vlib::engine::*;
use vlib::prng::Rng;
use vlib::prog::*;
use zokrates_ast::ir::{smtlib2::SMTLib2Display, Witness};
use zokrates_field::*;

pub struct Out {
    pub rc: Option<i32>,
    pub text: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.rc == Some(0)
    }
    pub fn crashed(&self) -> bool {
        !matches!(self.rc, Some(0) | Some(1)) || self.text.contains("panicked") || self.text.contains("overflowed its stack")
    }
}

pub fn bin() -> String {
    std::env::var("VH_ZOKRATES").unwrap_or_else(|_| {
        let mut p = std::env::current_exe().unwrap();
        p.set_file_name("zokrates");
        p.display().to_string()
    })
}

pub fn zok(dir: &str, args: &[&str], stdin: Option<&str>) -> Out {
    run_cmd(&bin(), dir, args, stdin)
}

/// The thread pool of a dependency (sppark, in pasta-msm) sometimes misses its wakeup when the process exits. A process
/// that does nothing any more is ended and run again; if it happens three times it is not that.
fn run_cmd(bin: &str, dir: &str, args: &[&str], stdin: Option<&str>) -> Out {
    let mut out = None;
    for _ in 0..3 {
        out = run_once(bin, dir, args, stdin);
        if out.is_some() {
            break;
        }
    }
    out.unwrap_or_else(|| Out { rc: None, text: "hangs".into() })
}

/// processor time of a process, in ticks
fn ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn run_once(bin: &str, dir: &str, args: &[&str], stdin: Option<&str>) -> Option<Out> {
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut p = c.spawn().expect("the zokrates binary was not built");
    if let Some(s) = stdin {
        let mut i = p.stdin.take().unwrap();
        let s = s.to_string();
        std::thread::spawn(move || i.write_all(s.as_bytes()));
    }
    let pid = p.id();
    let done = Arc::new(AtomicBool::new(false));
    let hung = Arc::new(AtomicBool::new(false));
    let (d2, h2) = (done.clone(), hung.clone());
    let watch = std::thread::spawn(move || {
        let (mut last, mut idle) = (0, 0);
        loop {
            std::thread::park_timeout(Duration::from_secs(1));
            if d2.load(Ordering::SeqCst) {
                return;
            }
            match ticks(pid) {
                Some(t) if t == last => idle += 1,
                Some(t) => {
                    last = t;
                    idle = 0;
                }
                None => {}
            }
            if idle >= 15 {
                h2.store(true, Ordering::SeqCst);
                let _ = Command::new("kill").args(&["-9", &pid.to_string()]).status();
                return;
            }
        }
    });
    let o = p.wait_with_output().unwrap();
    done.store(true, Ordering::SeqCst);
    watch.thread().unpark();
    let _ = watch.join();
    if hung.load(Ordering::SeqCst) {
        return None;
    }
    Some(Out {
        rc: o.status.code(),
        text: format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
    })
}

/// the same where no file can become longer than so many blocks of 512 bytes
fn zok_limited(dir: &str, blocks: usize, args: &[&str], stdin: Option<&str>) -> Out {
    let mut a = vec!["-c".to_string(), format!("trap '' XFSZ; ulimit -f {}; exec \"$@\"", blocks), "sh".to_string(), bin()];
    a.extend(args.iter().map(|s| s.to_string()));
    run_cmd("/bin/dash", dir, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>(), stdin)
}

const FILES: [&str; 7] = ["out", "abi.json", "out.r1cs", "witness", "witness.json", "w.wtns", "f.smt2"];

pub struct Dir(pub String);
impl Dir {
    pub fn new(ctx: &Ctx) -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        Dir(scratch(&format!("{}-{}", ctx.id, N.fetch_add(1, Ordering::Relaxed))))
    }
    pub fn put(&self, name: &str, s: impl AsRef<[u8]>) {
        let p = self.path(name);
        if let Some(d) = std::path::Path::new(&p).parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(p, s).unwrap();
    }
    pub fn path(&self, name: &str) -> String {
        format!("{}/{}", self.0, name)
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.path(name)).ok()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn read_witness(curve: Curve, b: &[u8]) -> Result<Wit, String> {
    fn r<T: Field>(b: &[u8]) -> Result<Wit, String> {
        match guard(|| Witness::<T>::read(b)) {
            Ok(Ok(w)) => Ok(wit(&w)),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(e),
        }
    }
    match curve {
        Curve::Bn128 => r::<Bn128Field>(b),
        Curve::Bls12_381 => r::<Bls12_381Field>(b),
        Curve::Bls12_377 => r::<Bls12_377Field>(b),
        Curve::Bw6_761 => r::<Bw6_761Field>(b),
        Curve::Pallas => r::<PallasField>(b),
        Curve::Vesta => r::<VestaField>(b),
    }
}

fn std_arg() -> String {
    stdlib_root()
}

/// what is printed after "Witness:"
fn printed(o: &Out) -> Option<serde_json::Value> {
    let i = o.text.find("\nWitness: \n")? + 11;
    let mut it = serde_json::Deserializer::from_str(&o.text[i..]).into_iter::<serde_json::Value>();
    it.next()?.ok()
}

fn x01(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let p = curve.p();
    let debug = ctx.rng.chance(1, 3);
    let pf = Profile {
        asserts: ctx.rng.chance(1, 2),
        logs: ctx.rng.chance(1, 2),
        stmts: ctx.rng.range(1, 5),
        max_depth: ctx.rng.range(1, 3),
        ..Profile::base()
    };
    let mut r = ctx.rng.clone();
    let prog = Gen::program(&mut r, &pf, &p);
    let args: Vec<Vec<V>> = (0..3).map(|_| prog.params.iter().map(|q| Gen::input(&mut r, &prog, &q.ty)).collect()).collect();
    ctx.rng = r;
    let src = prog.render();
    ctx.case = json!({"source": src, "curve": curve.name(), "debug": debug});
    let arena = Arena::new();
    let lib = compile_with::<D>(&src, &arena, None, debug);
    let d = Dir::new(ctx);
    d.put("src/main.zok", &src);
    // something longer is already there
    for f in ["o/out", "o/abi.json", "o/out.r1cs", "o/wit", "o/wtns", "o/f.smt2"] {
        d.put(f, "x".repeat(if ctx.rng.chance(1, 2) { 300_000 } else { 3 }));
    }
    let std = std_arg();
    let bad = |ctx: &mut Ctx, what: &str, o: &Out| {
        ctx.violation(
            &format!("{}:{}", what.split(':').next().unwrap(), src),
            format!("{}\nexit {:?}: {}\n({})\n{}", what, o.rc, cut(&o.text, 1500), curve.name(), src),
        )
    };
    let mut a = vec!["compile", "-i", "src/main.zok", "-o", "o/out", "-s", "o/abi.json", "-r", "o/out.r1cs", "-c", curve.name(), "--stdlib-path", &std];
    if debug {
        a.push("--debug");
    }
    let o = zok(&d.0, &a, None);
    ctx.eval();
    if o.crashed() && !matches!(&lib, Err(e) if e.is_panic()) {
        return bad(ctx, "compile: crashed", &o);
    }
    let c = match lib {
        Ok(c) => c,
        Err(e) => {
            if o.ok() {
                return bad(ctx, &format!("compile: the library says {}", e.text()), &o);
            }
            if d.get("o/out").map(|b| b.starts_with(b"x")) != Some(true) {
                return bad(ctx, "compile: a program file was written by a failed compilation", &o);
            }
            return ctx.count("refused_alike");
        }
    };
    let ci = cir(&c.prog);
    // private arguments and solver results that no constraint mentions are refused
    let mut free: std::collections::BTreeSet<isize> = ci.args.iter().filter(|a| a.1).map(|a| a.0).collect();
    for st in &ci.stmts {
        match st {
            St::Con(c) => [&c.a, &c.b, &c.c].iter().for_each(|l| l.iter().for_each(|(v, _)| drop(free.remove(v)))),
            St::Dir(x) => free.extend(x.outs.iter().copied()),
            St::Log(_) => {}
        }
    }
    if !free.is_empty() {
        if o.ok() || !o.text.contains("unconstrained") {
            return bad(ctx, &format!("compile: variables {:?} are not constrained", free), &o);
        }
        if d.get("o/out").is_some() {
            return bad(ctx, "compile: a program file was left by a failed compilation", &o);
        }
        return ctx.count("refused_unconstrained");
    }
    if !o.ok() {
        return bad(ctx, "compile: refuses what the library compiles", &o);
    }
    ctx.count("compiled");
    // the file is the program
    let file = d.get("o/out").unwrap_or_default();
    let n = match vf::load(&file) {
        Ok(n) => n,
        Err(e) => return bad(ctx, &format!("compile: the program cannot be loaded: {}", e), &o),
    };
    if n.cir().show() != ci.show() || n.curve() != curve {
        return bad(ctx, "compile: the program file differs from the library's program", &o);
    }
    if file.windows(d.0.len()).any(|w| w == d.0.as_bytes()) {
        return bad(ctx, "compile: the program file contains the absolute path of the source", &o);
    }
    match d.get("o/abi.json").and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()) {
        Some(v) if v == serde_json::to_value(&c.abi).unwrap() => {}
        v => return bad(ctx, &format!("compile: the ABI file is {:?}", v), &o),
    }
    let r1 = match parse_r1cs(&d.get("o/out.r1cs").unwrap_or_default()) {
        Ok(r) => r,
        Err(e) => return bad(ctx, &format!("compile: the r1cs file cannot be read: {}", e), &o),
    };
    if !o.text.contains(&format!("Number of constraints: {}\n", ci.ncons())) {
        return bad(ctx, &format!("compile: the program has {} constraints", ci.ncons()), &o);
    }
    // check agrees
    let o = zok(&d.0, &["check", "-i", "src/main.zok", "-c", curve.name(), "--stdlib-path", &std], None);
    if !o.ok() {
        return bad(ctx, "check: refuses what compile accepts", &o);
    }
    ctx.count("checked");
    // inspect, smt, profile
    let o = zok(&d.0, &["inspect", "-i", "o/out", "--ztf"], None);
    let ztf = String::from_utf8_lossy(&d.get("o/out.ztf").unwrap_or_default()).to_string();
    let line = |k: &str| o.text.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string());
    if !o.ok() || line("curve:").as_deref() != Some(curve.name()) || line("constraint_count:") != Some(ci.ncons().to_string()) {
        return bad(ctx, &format!("inspect: {} constraints expected", ci.ncons()), &o);
    }
    let shown = format!("{}", c.prog);
    let body: String = ztf.lines().filter(|l| !l.starts_with("# c")).map(|l| format!("{}\n", l)).collect();
    if let Some((x, y)) = body.lines().chain([""]).zip(shown.lines().chain([""])).find(|(x, y)| x.replace("src/main.zok", "main.zok") != **y) {
        return bad(ctx, &format!("inspect: the ztf file has\n{}\nwhere the program has\n{}", cut(x, 800), cut(y, 800)), &o);
    }
    let o = zok(&d.0, &["generate-smtlib2", "-i", "o/out", "-o", "o/f.smt2"], None);
    if !o.ok() || d.get("o/f.smt2").map(|b| String::from_utf8_lossy(&b).to_string()) != Some(format!("{}", SMTLib2Display(&c.prog))) {
        return bad(ctx, "generate-smtlib2: not the formula of the program", &o);
    }
    ctx.count("inspected");
    if ctx.rng.chance(1, 4) {
        let o = zok(&d.0, &["profile", "-i", "o/out"], None);
        if !o.ok() {
            return bad(ctx, "profile: failed", &o);
        }
    }
    // executions
    for (k, a) in args.iter().enumerate() {
        let flat = flat_inputs(a);
        let e = execute(&c.prog, &flat);
        let raw = format!("given {:?}", flat.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>());
        let mut words: Vec<String> = vec![];
        for x in &flat {
            words.push(x.to_str_radix(10));
        }
        let mode = if k == 0 && !words.is_empty() { 0 } else { 1 + ctx.rng.below(2) };
        for f in ["o/wit", "o/wtns"] {
            d.put(f, "x".repeat(100_000));
        }
        let _ = fs::remove_file(d.path("o/wit.json"));
        let base = ["compute-witness", "-i", "o/out", "-s", "o/abi.json", "-o", "o/wit", "--circom-witness", "o/wtns", "--verbose", "--json"];
        let mut av: Vec<&str> = base.to_vec();
        let o = match mode {
            0 => {
                av.push("-a");
                av.extend(words.iter().map(|s| s.as_str()));
                zok(&d.0, &av, None)
            }
            1 => {
                // separated by any blanks
                let mut s = String::new();
                for (i, w) in words.iter().enumerate() {
                    if i > 0 {
                        s.push_str(*ctx.rng.pick(&[" ", " ", "\n", "  ", " \n", "\t", "\r\n"]));
                    }
                    s.push_str(w);
                }
                s.push_str(*ctx.rng.pick(&["", "\n", " ", "\r\n"]));
                av.push("--stdin");
                zok(&d.0, &av, Some(&s))
            }
            _ => {
                let ev = Ev::new(&prog);
                let js: Vec<String> = prog.params.iter().zip(a).map(|(q, v)| ev.json(&q.ty, v)).collect();
                av.push("--stdin");
                av.push("--abi");
                zok(&d.0, &av, Some(&format!("[{}]", js.join(","))))
            }
        };
        ctx.eval();
        let what = |s: &str| format!("compute-witness: {} ({}, mode {})", s, raw, mode);
        match &e {
            Exec::Ok(w, log) => {
                if !o.ok() {
                    return bad(ctx, &what("refused what the library executes"), &o);
                }
                let want = wit(w);
                match read_witness(curve, &d.get("o/wit").unwrap_or_default()) {
                    Ok(g) if g == want => {}
                    Ok(g) => return bad(ctx, &what(&format!("the witness file has {:?} where {:?} was expected", g, want)), &o),
                    Err(e) => return bad(ctx, &what(&format!("the witness file cannot be read: {}", e)), &o),
                }
                let outs = outputs(w, ci.nret).unwrap_or_default();
                let shown = if mode == 2 {
                    match Ev::new(&prog).run(a) {
                        Ok(v) => serde_json::from_str(&Ev::new(&prog).json(&prog.ret, &v)).ok(),
                        Err(_) => None,
                    }
                } else {
                    Some(json!(outs.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>()))
                };
                if let Some(s) = shown {
                    if printed(&o) != Some(s.clone()) {
                        return bad(ctx, &what(&format!("printed {:?} where {} was expected", printed(&o), s)), &o);
                    }
                }
                for l in log.lines().filter(|l| !l.trim().is_empty()) {
                    if !o.text.contains(l) {
                        return bad(ctx, &what(&format!("does not print the log line {:?}", l)), &o);
                    }
                }
                let js: std::collections::BTreeMap<String, String> =
                    serde_json::from_slice(&d.get("o/wit.json").unwrap_or_default()).unwrap_or_default();
                if js.len() != want.len() || !want.iter().all(|(k, v)| js.get(&vname(*k)) == Some(&v.to_str_radix(10))) {
                    return bad(ctx, &what(&format!("the JSON witness is {:?}", js)), &o);
                }
                // circom: satisfied, and the outputs and public inputs are these
                match parse_wtns(&d.get("o/wtns").unwrap_or_default()) {
                    Ok((q, v)) if q == p && v.len() == r1.wires => {
                        let ev = |l: &Vec<(usize, BigUint)>| l.iter().fold(BigUint::zero(), |a, (w, c)| (a + c * &v[*w]) % &p);
                        if !v[0].is_one() || v[1..1 + r1.out] != outs[..] {
                            return bad(ctx, &what("the circom witness has other outputs"), &o);
                        }
                        if let Some(i) = r1.cons.iter().position(|t| ev(&t[0]) * ev(&t[1]) % &p != ev(&t[2])) {
                            return bad(ctx, &what(&format!("constraint {} of the r1cs file is violated by the circom witness", i)), &o);
                        }
                        let publics: Vec<BigUint> = ci.args.iter().zip(&flat).filter(|(a, _)| !a.1).map(|(_, x)| x.clone()).collect();
                        if r1.pubin == publics.len() && v[1 + r1.out..1 + r1.out + r1.pubin] != publics[..] {
                            return bad(ctx, &what("the circom witness has other public inputs"), &o);
                        }
                    }
                    x => return bad(ctx, &what(&format!("the circom witness is {:?}", x.map(|(q, v)| (q, v.len())))), &o),
                }
                ctx.count(["executed_with_arguments", "executed_with_stdin", "executed_with_json"][mode]);
                ctx.nontrivial((&src, &raw));
                let s = src.clone();
                ctx.sample(|| json!({"source": s, "inputs": raw, "curve": curve.name()}));
            }
            Exec::Panic(_) => ctx.count("library_panics"),
            _ => {
                if o.crashed() {
                    return bad(ctx, &what("crashed"), &o);
                }
                if o.ok() {
                    return bad(ctx, &what("accepted what the library refuses"), &o);
                }
                for f in ["o/wit", "o/wtns"] {
                    if d.get(f) != Some("x".repeat(100_000).into_bytes()) {
                        return bad(ctx, &what("an execution that failed wrote a witness"), &o);
                    }
                }
                ctx.count("refused_executions");
            }
        }
    }
}

// ------------------------------------------------------------------ faults

const SRC: &str = "struct P { field x; u8[2] y; }\ndef main(private P p, public field[3] a, bool b) -> (P, field) {\n    log(\"a {}\", a);\n    field c = if b { a[0] * a[1] * p.x } else { a[2] * a[2] };\n    assert(c != 7);\n    return (p, c);\n}\n";

fn garbage(r: &mut Rng, good: &[u8]) -> Vec<u8> {
    let mut b = good.to_vec();
    match r.below(7) {
        0 => vec![],
        1 => (0..r.range(1, 400)).map(|_| r.below(256) as u8).collect(),
        2 => {
            b.truncate(r.below(b.len().max(1)));
            b
        }
        3 => {
            for _ in 0..r.range(1, 6) {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            b
        }
        4 => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0u8, 255, 128, 192, b'{', b'"']);
            b
        }
        5 => {
            let i = r.below(b.len() + 1);
            let ins: Vec<u8> = (0..r.range(1, 9)).map(|_| r.below(256) as u8).collect();
            b.splice(i..i, ins);
            b
        }
        _ => {
            let i = r.below(b.len());
            let e = (i + r.range(1, 40)).min(b.len());
            b.drain(i..e);
            b
        }
    }
}

fn x02(ctx: &mut Ctx, idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let d = Dir::new(ctx);
    let std = std_arg();
    d.put("p.zok", SRC);
    d.put("sub/keep", "");
    let o = zok(&d.0, &["compile", "-i", "p.zok", "-c", curve.name(), "--stdlib-path", &std, "--debug"], None);
    ctx.case = json!({"curve": curve.name()});
    let bad = |ctx: &mut Ctx, what: &str, o: &Out| {
        ctx.violation(what.split(" (").next().unwrap(), format!("{} exit {:?}: {} ({})", what, o.rc, cut(&o.text, 1500), curve.name()))
    };
    if !o.ok() {
        return bad(ctx, "compile: failed", &o);
    }
    let args = r#"[{"x":"3","y":["1","0xff"]},["2","5","9"],true]"#;
    let run = |out: &str, wtns: &str| zok(&d.0, &["compute-witness", "-o", out, "--circom-witness", wtns, "--abi", "--stdin", "--json"], Some(args));
    let o = run("witness", "w.wtns");
    if !o.ok() {
        return bad(ctx, "compute-witness: failed", &o);
    }
    let o = zok(&d.0, &["generate-smtlib2", "-o", "f.smt2"], None);
    if !o.ok() {
        return bad(ctx, "generate-smtlib2: failed", &o);
    }
    ctx.eval();
    match idx % 7 {
        // outputs that cannot be written
        0 => {
            // a link, because a command that fails may remove its output
            for t in ["full", "sub", "none/x", "sub/keep/x"] {
                let cases: Vec<(&str, Vec<&str>)> = vec![
                    ("compile -o", vec!["compile", "-i", "p.zok", "-c", curve.name(), "--stdlib-path", &std, "-o", t]),
                    ("compile -s", vec!["compile", "-i", "p.zok", "-c", curve.name(), "--stdlib-path", &std, "-s", t]),
                    ("compile -r", vec!["compile", "-i", "p.zok", "-c", curve.name(), "--stdlib-path", &std, "-r", t]),
                    ("compute-witness -o", vec!["compute-witness", "-a", "1", "2", "3", "4", "5", "6", "0", "-o", t]),
                    ("compute-witness --circom-witness", vec!["compute-witness", "-a", "1", "2", "3", "4", "5", "6", "0", "--circom-witness", t]),
                    ("generate-smtlib2 -o", vec!["generate-smtlib2", "-o", t]),
                ];
                for (what, a) in cases {
                    let _ = std::os::unix::fs::symlink("/dev/full", d.path("full"));
                    let o = zok(&d.0, &a, None);
                    ctx.eval();
                    ctx.nontrivial((what, t, curve.name()));
                    if o.ok() {
                        return bad(ctx, &format!("{} {}: success reported although nothing could be written", what, t), &o);
                    }
                    if o.crashed() {
                        return bad(ctx, &format!("{} {}: crashed", what, t), &o);
                    }
                    ctx.count("unwritable_outputs_reported");
                }
            }
        }
        // files can only grow to a certain size: all is written, or failure is reported
        6 => {
            let good: Vec<(&str, Option<Vec<u8>>)> = FILES.iter().map(|f| (*f, d.get(f))).collect();
            let cases: Vec<(&str, Vec<&str>, &[&str])> = vec![
                ("compile", vec!["compile", "-i", "p.zok", "-c", curve.name(), "--stdlib-path", &std, "--debug"], &FILES[..3]),
                ("compute-witness", vec!["compute-witness", "--abi", "--stdin", "--json", "--circom-witness", "w.wtns"], &FILES[3..6]),
                ("generate-smtlib2", vec!["generate-smtlib2", "-o", "f.smt2"], &FILES[6..]),
            ];
            for (what, a, files) in &cases {
                let total: usize = good.iter().filter(|(f, _)| files.contains(f)).map(|(_, b)| b.as_ref().map_or(0, |b| b.len())).max().unwrap();
                for _ in 0..4 {
                    let blocks = ctx.rng.below(total / 512 + 2);
                    for f in *files {
                        let _ = fs::remove_file(d.path(f));
                    }
                    let o = zok_limited(&d.0, blocks, a, Some(args));
                    ctx.eval();
                    ctx.nontrivial((what, blocks, curve.name()));
                    if o.crashed() {
                        return bad(ctx, &format!("{} limited to {} blocks: crashed", what, blocks), &o);
                    }
                    if o.ok() {
                        if let Some((f, _)) = good.iter().find(|(f, b)| files.contains(f) && d.get(f) != *b) {
                            return bad(ctx, &format!("{} with limited files: success reported although {} is not complete", what, f), &o);
                        }
                        ctx.count("limited_outputs_complete");
                    } else {
                        if blocks * 512 >= total {
                            return bad(ctx, &format!("{} with limited files: failed although all fits", what), &o);
                        }
                        ctx.count("limited_outputs_reported");
                    }
                    for (f, b) in &good {
                        d.put(f, b.as_ref().unwrap());
                    }
                }
            }
        }
        // inputs that are not there, or something else
        1 => {
            for t in ["none", "sub", "p.zok", "sub/keep", "/dev/null"] {
                let cases: Vec<(&str, Vec<&str>)> = vec![
                    ("compute-witness -i", vec!["compute-witness", "-i", t, "-a", "1"]),
                    ("inspect -i", vec!["inspect", "-i", t]),
                    ("profile -i", vec!["profile", "-i", t]),
                    ("generate-smtlib2 -i", vec!["generate-smtlib2", "-i", t]),
                    ("compute-witness -s", vec!["compute-witness", "--abi", "--stdin", "-s", t]),
                    ("export-verifier -i", vec!["export-verifier", "-i", t]),
                    ("print-proof -j", vec!["print-proof", "-f", "json", "-j", t]),
                    ("compile --stdlib-path", vec!["compile", "-i", "p.zok", "--stdlib-path", "none"]),
                    ("compile -i", vec!["compile", "-i", if t == "p.zok" { "out" } else { t }, "--stdlib-path", &std]),
                    ("check -i", vec!["check", "-i", if t == "p.zok" { "out" } else { t }, "--stdlib-path", &std]),
                ];
                for (what, a) in cases {
                    let o = zok(&d.0, &a, Some(args));
                    ctx.eval();
                    ctx.nontrivial((what, t));
                    if o.crashed() {
                        return bad(ctx, &format!("{} {}: crashed", what, t), &o);
                    }
                    if o.ok() {
                        return bad(ctx, &format!("{} {}: success", what, t), &o);
                    }
                    ctx.count("unusable_inputs_reported");
                }
            }
        }
        // damaged programs and interfaces
        2 | 3 => {
            let (f, cmds): (&str, Vec<Vec<&str>>) = if idx % 7 == 2 {
                (
                    "out",
                    vec![
                        vec!["inspect", "-i", "bad"],
                        vec!["profile", "-i", "bad"],
                        vec!["generate-smtlib2", "-i", "bad", "-o", "f"],
                        vec!["compute-witness", "-i", "bad", "-a", "1", "2", "3", "4", "5", "6", "0"],
                    ],
                )
            } else {
                ("abi.json", vec![vec!["compute-witness", "-s", "bad", "--abi", "--stdin"]])
            };
            let good = d.get(f).unwrap();
            for _ in 0..10 {
                let b = garbage(&mut ctx.rng, &good);
                // constraints that make the interpreter loop or allocate without bound are not made by flipping a few bits
                d.put("bad", &b);
                ctx.case = json!({"file": f, "bytes": b.iter().map(|x| format!("{:02x}", x)).collect::<String>(), "curve": curve.name()});
                for a in &cmds {
                    let o = zok(&d.0, a, Some(args));
                    ctx.eval();
                    ctx.nontrivial((&b, a));
                    if o.crashed() {
                        return bad(ctx, &format!("{} on a damaged {}: crashed", a[0], f), &o);
                    }
                    ctx.count(if o.ok() { "damaged_inputs_still_valid" } else { "damaged_inputs_reported" });
                }
            }
        }
        // arguments
        4 => {
            let p = curve.p();
            let ps = p.to_str_radix(10);
            let p1 = (&p + BigUint::one()).to_str_radix(10);
            for (a, what) in [
                (vec!["1", "2", "3", "4", "5", "6"], "too few"),
                (vec!["1", "2", "3", "4", "5", "6", "0", "1"], "too many"),
                (vec!["1", "2", "3", "4", "5", "6", "x"], "not a number"),
                (vec!["1", "2", "3", "4", "5", "6", ""], "empty"),
                (vec!["1", "2", "3", "4", "5", "6", "1.0"], "a fraction"),
                (vec![&ps, "2", "3", "4", "5", "6", "0"], "the prime"),
                (vec![&p1, "2", "3", "4", "5", "6", "0"], "above the prime"),
                (vec!["1", "256", "3", "4", "5", "6", "0"], "no u8"),
                (vec!["1", "2", "3", "4", "5", "6", "2"], "no bool"),
                (vec!["1", "2", "3", "1", "1", "7", "2"], "no bool, failing assertion"),
                (vec!["7", "2", "3", "1", "1", "7", "1"], "failing assertion"),
            ] {
                let mut v = vec!["compute-witness", "-o", "none_written"];
                let s = a.join(" ");
                let stdin = ctx.rng.chance(1, 2) && !what.starts_with("empty");
                if stdin {
                    v.push("--stdin");
                } else {
                    v.push("-a");
                    v.extend(&a);
                }
                let o = zok(&d.0, &v, Some(&s));
                ctx.eval();
                ctx.nontrivial((what, stdin, curve.name()));
                if o.crashed() || o.ok() || d.get("none_written").is_some() {
                    return bad(ctx, &format!("compute-witness with arguments that are {}: not refused", what), &o);
                }
                ctx.count("bad_arguments_refused");
            }
            for j in [
                "", "[]", "{}", "[1]", "null", "[", "[{},[],true]", r#"[{"x":"3","y":["1"]},["2","5","9"],true]"#,
                r#"[{"x":"3","y":["1","256"]},["2","5","9"],true]"#, r#"[{"x":"3","y":["1","2"],"z":"0"},["2","5","9"],true]"#,
                r#"[{"x":"3","y":["1","2"]},["2","5","9"],true,true]"#, r#"[{"x":"3","y":["1","2"]},["2","5","9"],"true"]"#,
                r#"[{"x":3,"y":["1","2"]},["2","5","9"],true]"#, r#"[{"x":"-3","y":["1","2"]},["2","5","9"],true]"#,
                "[{\"x\":\"3\",\"y\":[\"1\",\"2\"]},[\"2\",\"5\",\"9\"],true] trailing",
            ] {
                let o = zok(&d.0, &["compute-witness", "-o", "none_written", "--abi", "--stdin"], Some(j));
                ctx.eval();
                ctx.nontrivial((j, curve.name()));
                if o.crashed() || o.ok() || d.get("none_written").is_some() {
                    return bad(ctx, &format!("compute-witness --abi with {}: not refused", j), &o);
                }
                ctx.count("bad_arguments_refused");
            }
        }
        // damaged sources
        _ => {
            for _ in 0..12 {
                let b = garbage(&mut ctx.rng, SRC.as_bytes());
                d.put("bad.zok", &b);
                ctx.case = json!({"source": String::from_utf8_lossy(&b), "bytes": b.iter().map(|x| format!("{:02x}", x)).collect::<String>(), "curve": curve.name()});
                for cmd in ["compile", "check"] {
                    let mut a = vec![cmd, "-i", "bad.zok", "-c", curve.name(), "--stdlib-path", &std];
                    if cmd == "compile" {
                        a.extend(["-o", "bad.out", "-r", "bad.r1cs", "-s", "bad.json"]);
                    }
                    let o = zok(&d.0, &a, None);
                    ctx.eval();
                    ctx.nontrivial((&b, cmd));
                    if o.crashed() {
                        return bad(ctx, &format!("{} of a damaged source: crashed ({})", cmd, String::from_utf8_lossy(&b)), &o);
                    }
                    if !o.ok() && cmd == "compile" && d.get("bad.out").is_some() {
                        return bad(ctx, "compile: a program is left by a failed compilation", &o);
                    }
                    let _ = fs::remove_file(d.path("bad.out"));
                    ctx.count(if o.ok() { "damaged_sources_still_valid" } else { "damaged_sources_reported" });
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, run, quick, thorough, require| Prop {
        id,
        level: "exploration",
        rule,
        assumptions: &["the reference evaluator and the parsers of the harness are right"],
        quick,
        thorough,
        quick_s: 60,
        thorough_s: 800,
        run,
        require,
    };
    vec![
        d(
            "X01",
            "every command of the program gives what the library gives on the same source and arguments, in files and on the terminal",
            x01,
            1000,
            12000,
            &["compiled", "inspected", "executed_with_arguments", "executed_with_stdin", "executed_with_json", "refused_executions"],
        ),
        d(
            "X02",
            "a command that cannot do what it was asked says so with a failing exit status, without crashing and without leaving an output",
            x02,
            400,
            4000,
            &["unwritable_outputs_reported", "limited_outputs_complete", "limited_outputs_reported", "unusable_inputs_reported", "damaged_inputs_reported", "bad_arguments_refused", "damaged_sources_reported"],
        ),
    ]
}
