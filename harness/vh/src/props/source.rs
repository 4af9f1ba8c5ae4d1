//! T01, T02: what the compiler does with sources that are not programs
use super::files::any_curve;
use crate::run::*;
use num_bigint::BigUint;
use serde_json::json;
use typed_arena::Arena;
use vlib::dynf::{self, D};
use vlib::engine::*;
use vlib::prng::Rng;
use vlib::prog::*;

// ------------------------------------------------------------------ T01

/// a type with expressions of it
#[derive(Clone, Debug, PartialEq)]
enum Y {
    F,
    B,
    U(usize),
    A(Box<Y>, usize),
    T(Vec<Y>),
    S(usize),
    G(usize),
}

const DECLS: &str = "struct ZqA {\n    field zqx;\n    bool zqy;\n}\nstruct ZqB {\n    field zqx;\n    bool zqy;\n}\nstruct ZqG<N> {\n    u8[N] zqa;\n}\ndef zqid<N>(field[N] zqp) -> field[N] {\n    return zqp;\n}\ndef zqf(field zqp, bool zqr) -> u32 {\n    return if zqr && zqp == 1 { 3u32 } else { 4u32 };\n}\ndef zqnone(field zqp) {\n    return;\n}\nconst u32 ZQN = 2;\nconst field ZQF = 5;\n";

impl Y {
    fn any(r: &mut Rng, d: usize) -> Y {
        match r.below(if d == 0 { 6 } else { 10 }) {
            0 | 1 => Y::F,
            2 => Y::B,
            3 | 4 | 5 => Y::U(*r.pick(&[8, 16, 32, 64])),
            6 => Y::A(Box::new(Y::any(r, d - 1)), r.range(1, 3)),
            7 => Y::T((0..r.range(1, 3)).map(|_| Y::any(r, d - 1)).collect()),
            8 => Y::S(r.below(2)),
            _ => Y::G(r.range(1, 2)),
        }
    }
    fn other(&self, r: &mut Rng) -> Y {
        loop {
            let o = match (self, r.below(3)) {
                (Y::A(t, n), 0) => Y::A(t.clone(), n + 1),
                (Y::T(v), 0) => {
                    let mut v = v.clone();
                    v.push(Y::B);
                    Y::T(v)
                }
                (Y::S(i), 0 | 1) => Y::S(1 - i),
                (Y::G(n), 0 | 1) => Y::G(3 - n),
                (Y::U(b), 0) => Y::U(if *b == 64 { 8 } else { b * 2 }),
                (Y::A(t, n), 1) => Y::A(Box::new(t.other(r)), *n),
                _ => Y::any(r, 2),
            };
            if o != *self {
                return o;
            }
        }
    }
    /// differ in more than sizes
    fn unlike(&self, o: &Y) -> bool {
        match (self, o) {
            (Y::A(t, _), Y::A(u, _)) => t.unlike(u),
            (Y::T(v), Y::T(w)) => v.len() != w.len() || v.iter().zip(w).any(|(t, u)| t.unlike(u)),
            (Y::G(_), Y::G(_)) => false,
            (t, u) => t != u,
        }
    }
    fn name(&self) -> String {
        match self {
            Y::F => "field".into(),
            Y::B => "bool".into(),
            Y::U(b) => format!("u{}", b),
            // the outer dimension comes first
            Y::A(t, n) => {
                let mut dims = format!("[{}]", n);
                let mut t = t;
                while let Y::A(u, m) = &**t {
                    dims.push_str(&format!("[{}]", m));
                    t = u;
                }
                format!("{}{}", t.name(), dims)
            }
            Y::T(v) if v.len() == 1 => format!("({},)", v[0].name()),
            Y::T(v) => format!("({})", v.iter().map(|t| t.name()).collect::<Vec<_>>().join(", ")),
            Y::S(i) => ["ZqA", "ZqB"][*i].into(),
            Y::G(n) => format!("ZqG<{}>", n),
        }
    }
    /// an expression whose type is explicit
    fn lit(&self, r: &mut Rng) -> String {
        match self {
            Y::F => (*r.pick(&["1f", "0f", "(2f + 3f)", "ZQF", "(2f ** 3u32)"])).into(),
            Y::B => (*r.pick(&["true", "false", "(1f == 2f)", "!false", "(1u8 < 2u8)"])).into(),
            Y::U(b) => {
                let n = r.below(100);
                if r.chance(1, 4) {
                    format!("(3u{} + {}u{})", b, n, b)
                } else {
                    format!("{}u{}", n, b)
                }
            }
            Y::A(t, n) => {
                if r.chance(1, 3) {
                    format!("[{}; {}]", t.lit(r), n)
                } else {
                    format!("[{}]", (0..*n).map(|_| t.lit(r)).collect::<Vec<_>>().join(", "))
                }
            }
            Y::T(v) if v.len() == 1 => format!("({},)", v[0].lit(r)),
            Y::T(v) => format!("({})", v.iter().map(|t| t.lit(r)).collect::<Vec<_>>().join(", ")),
            Y::S(_) => format!("{} {{ zqx: {}, zqy: {} }}", self.name(), Y::F.lit(r), Y::B.lit(r)),
            Y::G(n) => format!("ZqG {{ zqa: [{}] }}", (0..*n).map(|_| Y::U(8).lit(r)).collect::<Vec<_>>().join(", ")),
        }
    }
}

/// (name, statements that are wrong, the same statements put right)
fn statement(r: &mut Rng, p: &BigUint) -> (&'static str, String, String) {
    let t = Y::any(r, 2);
    let u = t.other(r);
    let (a, b) = (t.lit(r), t.lit(r));
    let o = u.lit(r);
    let mut far = t.other(r);
    while !far.unlike(&t) {
        far = t.other(r);
    }
    let far = far.lit(r);
    let tn = t.name();
    let w = |n: &'static str, bad: String, good: String| (n, bad, good);
    let s = |n: &'static str, bad: &str, good: &str| (n, bad.to_string(), good.to_string());
    let uint = *r.pick(&[8usize, 16, 32, 64]);
    let un = format!("u{}", uint);
    let other = *r.pick(&[8usize, 16, 32, 64].iter().copied().filter(|x| *x != uint).collect::<Vec<_>>());
    match r.below(62) {
        0 | 1 | 2 => w("definition_type", format!("{} zqv = {};", tn, o), format!("{} zqv = {};", tn, a)),
        3 => w("undefined", format!("{} zqv = zqw;", tn), format!("{} zqw = {}; {} zqv = zqw;", tn, a, tn)),
        4 => w("immutable", format!("{} zqv = {}; zqv = {};", tn, a, b), format!("{} mut zqv = {}; zqv = {};", tn, a, b)),
        5 | 6 => w("assignment_type", format!("{} mut zqv = {}; zqv = {};", tn, a, o), format!("{} mut zqv = {}; zqv = {};", tn, a, b)),
        7 => w("undeclared", format!("zqv = {};", a), format!("{} mut zqv = {}; zqv = {};", tn, a, a)),
        8 => w(
            "scope",
            format!("for u32 zqi in 0..2 {{ {} zqx = {}; }} {} zqy = zqx;", tn, a, tn),
            format!("for u32 zqi in 0..2 {{ {} zqx = {}; {} zqy = zqx; }}", tn, a, tn),
        ),
        9 => s("loop_variable_scope", "for u32 zqi in 0..2 { } u32 zqx = zqi;", "for u32 zqi in 0..2 { u32 zqx = zqi; }"),
        10 => s("loop_variable_assigned", "for u32 zqi in 0..2 { zqi = 1u32; }", "for u32 zqi in 0..2 { u32 mut zqj = zqi; zqj = 1u32; }"),
        11 => {
            let op = *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^"]);
            w("operand_widths", format!("{} zqv = 1{} {} 2u{};", un, un, op, other), format!("{} zqv = 1{} {} 2{};", un, un, op, un))
        }
        12 => {
            let op = *r.pick(&["+", "-", "*", "/", "**", "<", "&", "|", "^", "%", "<<"]);
            w("bool_arithmetic", format!("bool zqv = true {} false;", op), "bool zqv = true && false;".into())
        }
        13 => w("field_remainder", "field zqv = 5f % 3f;".into(), "field zqv = 5f * 3f;".into()),
        14 => {
            let op = *r.pick(&["&&", "||"]);
            w("logic_on_numbers", format!("bool zqv = {} {} {};", Y::F.lit(r), op, Y::F.lit(r)), format!("bool zqv = true {} false;", op))
        }
        15 => s("not_on_field", "field zqv = !5f;", "field zqv = -5f;"),
        16 => s("minus_on_bool", "bool zqv = -true;", "bool zqv = !true;"),
        17 => w("condition_type", format!("{} zqv = if 1f {{ {} }} else {{ {} }};", tn, a, b), format!("{} zqv = if true {{ {} }} else {{ {} }};", tn, a, b)),
        18 => w("ternary_condition", format!("{} zqv = 1u8 ? {} : {};", tn, a, b), format!("{} zqv = (1u8 == 1u8) ? {} : {};", tn, a, b)),
        19 => w("branch_types", format!("{} zqv = if true {{ {} }} else {{ {} }};", tn, a, far), format!("{} zqv = if true {{ {} }} else {{ {} }};", tn, a, b)),
        20 => s("no_such_function", "u32 zqv = zqnofunction(1f, true);", "u32 zqv = zqf(1f, true);"),
        21 => s("argument_count", "u32 zqv = zqf(1f);", "u32 zqv = zqf(1f, true);"),
        22 => s("argument_count", "u32 zqv = zqf(1f, true, true);", "u32 zqv = zqf(1f, true);"),
        23 => s("argument_order", "u32 zqv = zqf(true, 1f);", "u32 zqv = zqf(1f, true);"),
        24 => s("call_result", "field zqv = zqf(1f, true);", "u32 zqv = zqf(1f, true);"),
        25 => s("generic_count", "field[2] zqv = zqid::<2, 2>([1f, 2f]);", "field[2] zqv = zqid::<2>([1f, 2f]);"),
        26 => s("generic_value", "field[2] zqv = zqid::<3>([1f, 2f]);", "field[2] zqv = zqid::<2>([1f, 2f]);"),
        27 => s("generic_result", "field[3] zqv = zqid([1f, 2f]);", "field[2] zqv = zqid([1f, 2f]);"),
        28 => s("member_of_field", "field zqv = 1f; field zqw = zqv.zqx;", "ZqA zqv = ZqA { zqx: 1, zqy: true }; field zqw = zqv.zqx;"),
        29 => s("no_such_member", "ZqA zqv = ZqA { zqx: 1, zqy: true }; field zqw = zqv.zqz;", "ZqA zqv = ZqA { zqx: 1, zqy: true }; field zqw = zqv.zqx;"),
        30 => s("member_type", "ZqA zqv = ZqA { zqx: 1, zqy: true }; bool zqw = zqv.zqx;", "ZqA zqv = ZqA { zqx: 1, zqy: true }; bool zqw = zqv.zqy;"),
        31 => s("tuple_index", "(field, bool) zqv = (1f, true); bool zqw = zqv.2;", "(field, bool) zqv = (1f, true); bool zqw = zqv.1;"),
        32 => s("tuple_element_type", "(field, bool) zqv = (1f, true); bool zqw = zqv.0;", "(field, bool) zqv = (1f, true); field zqw = zqv.0;"),
        33 => s("index_of_field", "field zqv = 1f; field zqw = zqv[0];", "field[1] zqv = [1f]; field zqw = zqv[0];"),
        34 => {
            let i = *r.pick(&["1f", "1u8", "1u64", "true"]);
            w("index_type", format!("field[2] zqv = [1f, 2f]; field zqw = zqv[{}];", i), "field[2] zqv = [1f, 2f]; field zqw = zqv[1u32];".into())
        }
        35 => s("constant_index", "field[2] zqv = [1f, 2f]; field zqw = zqv[2];", "field[2] zqv = [1f, 2f]; field zqw = zqv[1];"),
        36 => s("constant_write_index", "field[2] mut zqv = [1f, 2f]; zqv[2] = 1f;", "field[2] mut zqv = [1f, 2f]; zqv[1] = 1f;"),
        37 => s("slice_length", "field[3] zqv = [1f, 2f, 3f]; field[3] zqw = zqv[1..3];", "field[3] zqv = [1f, 2f, 3f]; field[2] zqw = zqv[1..3];"),
        38 => s("slice_end", "field[3] zqv = [1f, 2f, 3f]; field[2] zqw = zqv[2..4];", "field[3] zqv = [1f, 2f, 3f]; field[2] zqw = zqv[1..3];"),
        39 => {
            let (x, y) = (t.lit(r), t.lit(r));
            w("mixed_array", format!("{} zqv = [{}, {}];", Y::A(Box::new(t.clone()), 2).name(), x, o), format!("{} zqv = [{}, {}];", Y::A(Box::new(t.clone()), 2).name(), x, y))
        }
        40 => s("array_length", "field[3] zqv = [1f, 2f];", "field[3] zqv = [1f, 2f, 3f];"),
        41 => s("spread_length", "field[2] zqv = [1f, 2f]; field[4] zqw = [...zqv, 3f];", "field[2] zqv = [1f, 2f]; field[3] zqw = [...zqv, 3f];"),
        42 => s("repeat_length", "field[3] zqv = [1f; ZQN];", "field[2] zqv = [1f; ZQN];"),
        43 => s("missing_member", "ZqA zqv = ZqA { zqx: 1 };", "ZqA zqv = ZqA { zqx: 1, zqy: true };"),
        44 => s("extra_member", "ZqA zqv = ZqA { zqx: 1, zqy: true, zqz: 1 };", "ZqA zqv = ZqA { zqx: 1, zqy: true };"),
        45 => s("member_value", "ZqA zqv = ZqA { zqx: true, zqy: true };", "ZqA zqv = ZqA { zqx: 1, zqy: true };"),
        46 => s("no_such_struct", "ZqC zqv = ZqC { zqx: 1, zqy: true };", "ZqA zqv = ZqA { zqx: 1, zqy: true };"),
        47 => s("struct_by_name", "ZqA zqv = ZqB { zqx: 1, zqy: true };", "ZqA zqv = ZqA { zqx: 1, zqy: true };"),
        48 => w("assert_type", format!("assert({});", Y::U(uint).lit(r)), "assert(1f == 1f);".into()),
        49 => {
            let b = *r.pick(&["2f", "2u8", "true", "2u64"]);
            w("bound_type", format!("for u32 zqi in 0..{} {{ }}", b), "for u32 zqi in 0..2u32 { }".into())
        }
        50 => {
            let b = *r.pick(&["2f", "2u8", "true", "2u64"]);
            w("shift_type", format!("{} zqv = 3{} << {};", un, un, b), format!("{} zqv = 3{} << 2u32;", un, un))
        }
        51 => w("exponent_type", format!("field zqv = 3f ** {};", r.pick(&["2f", "2u8", "true"])), "field zqv = 3f ** 2u32;".into()),
        52 => w("log_count", format!("log(\"{{}} {{}}\", {});", a), format!("log(\"{{}}\", {});", a)),
        53 => s("log_untyped", "log(\"{}\", 1);", "log(\"{}\", 1f);"),
        54 => s("constant_assigned", "ZQF = 3f;", "field mut zqv = ZQF; zqv = 3f;"),
        55 => w("compare_types", format!("bool zqv = {} == {};", a, o), format!("bool zqv = {} == {};", a, b)),
        56 => {
            let max = BigUint::from(1u32) << uint;
            let top: BigUint = &max - 1u32;
            w("literal_range", format!("{} zqv = {};", un, max), format!("{} zqv = {};", un, top))
        }
        57 => {
            let top: BigUint = p - 1u32;
            w("field_literal_range", format!("field zqv = {};", p), format!("field zqv = {};", top))
        }
        58 => s("order_of_definition", "field zqv = zqw; field zqw = 1f;", "field zqw = 1f; field zqv = zqw;"),
        59 => s("element_assigned", "ZqA zqv = ZqA { zqx: 1, zqy: true }; zqv.zqx = 2;", "ZqA mut zqv = ZqA { zqx: 1, zqy: true }; zqv.zqx = 2;"),
        60 => s("asm_quadratic", "field mut zqv = 0; field mut zqw = 2; asm { zqv <-- 8; zqv === zqv * zqv * zqw; }", "field mut zqv = 0; field mut zqw = 2; asm { zqv <-- 0; zqv === zqv * zqw; }"),
        _ => s("compare_order", "bool zqv = [1f] < [2f];", "bool zqv = 1f < 2f;"),
    }
}

fn declaration(r: &mut Rng) -> (&'static str, String, String) {
    let s = |n: &'static str, bad: &str, good: &str| (n, bad.to_string(), good.to_string());
    let t = Y::any(r, 2);
    let u = t.other(r);
    let (a, o, tn) = (t.lit(r), u.lit(r), t.name());
    let w = |n: &'static str, bad: String, good: String| (n, bad, good);
    match r.below(25) {
        0 => s("two_functions", "def zqh(field zqp) -> field { return 1; }\ndef zqh(field zqr) -> field { return 2; }", "def zqh(field zqp) -> field { return 1; }\ndef zqh(bool zqr) -> field { return 2; }"),
        1 => s("two_structs", "struct ZqD { field zqx; }\nstruct ZqD { bool zqx; }", "struct ZqD { field zqx; }\nstruct ZqE { bool zqx; }"),
        2 => s("two_constants", "const field ZQC = 1;\nconst bool ZQC = true;", "const field ZQC = 1;\nconst bool ZQD = true;"),
        3 => s("two_members", "struct ZqD { field zqx; bool zqx; }", "struct ZqD { field zqx; bool zqy; }"),
        4 => s("two_arguments", "def zqh(field zqp, bool zqp) -> field { return 1; }", "def zqh(field zqp, bool zqr) -> field { return 1; }"),
        5 => s("two_generics", "def zqh<N, N>(field[N] zqp) -> field { return 1; }", "def zqh<N, M>(field[N] zqp, field[M] zqr) -> field { return 1; }"),
        6 => s("two_mains", "def main(field zqp, bool zqq2) -> field { return 1; }", "def zqmain(field zqp, bool zqq2) -> field { return 1; }"),
        7 | 8 => w("constant_type", format!("const {} ZQC = {};", tn, o), format!("const {} ZQC = {};", tn, a)),
        9 | 10 => w("return_type", format!("def zqh() -> {} {{ return {}; }}", tn, o), format!("def zqh() -> {} {{ return {}; }}", tn, a)),
        11 => w("no_return", format!("def zqh() -> {} {{ {} zqv = {}; }}", tn, tn, a), format!("def zqh() -> {} {{ {} zqv = {}; return zqv; }}", tn, tn, a)),
        12 => w("return_of_nothing", format!("def zqh() -> {} {{ return; }}", tn), format!("def zqh() -> {} {{ return {}; }}", tn, a)),
        13 => w("return_of_something", format!("def zqh() {{ return {}; }}", a), "def zqh() { return; }".into()),
        14 => w("two_returns", format!("def zqh() -> {} {{ return {}; return {}; }}", tn, a, a), format!("def zqh() -> {} {{ return {}; }}", tn, a)),
        15 => s("unknown_type", "def zqh(ZqNone zqp) -> field { return 1; }", "def zqh(ZqA zqp) -> field { return 1; }"),
        16 => s("unknown_member_type", "struct ZqD { ZqNone zqx; }", "struct ZqD { ZqA zqx; }"),
        17 => s("visibility", "def zqh(private field zqp) -> field { return 1; }", "def zqh(field zqp) -> field { return 1; }"),
        18 => s("undeclared_generic", "def zqh(field[ZqM] zqp) -> field { return 1; }", "def zqh<ZqM>(field[ZqM] zqp) -> field { return 1; }"),
        19 => s("struct_generics", "struct ZqD { ZqG zqx; }", "struct ZqD { ZqG<2> zqx; }"),
        20 => s("struct_generics", "struct ZqD { ZqA<2> zqx; }", "struct ZqD { ZqA zqx; }"),
        21 => s("struct_contains_itself", "struct ZqD { ZqD zqx; }", "struct ZqD { ZqA zqx; }"),
        22 => s("argument_assigned", "def zqh(field zqp) -> field { zqp = 2; return zqp; }", "def zqh(field mut zqp) -> field { zqp = 2; return zqp; }"),
        23 => s("dimension_type", "const field ZQC = 2;\ndef zqh(field[ZQC] zqp) -> field { return 1; }", "const u32 ZQC = 2;\ndef zqh(field[ZQC] zqp) -> field { return 1; }"),
        _ => s("generic_as_other_type", "def zqh<N>(field[N] zqp) -> field { return N; }", "def zqh<N>(field[N] zqp) -> u32 { return N; }"),
    }
}

fn t01(ctx: &mut Ctx, _idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let p = curve.p();
    let mut r = ctx.rng.clone();
    let pf = Profile { stmts: r.range(1, 5), max_depth: r.range(1, 3), logs: r.chance(1, 3), asserts: r.chance(1, 3), ..Profile::base() };
    let prog = Gen::program(&mut r, &pf, &p);
    let base = prog.render();
    let ls: Vec<&str> = base.lines().collect();
    let main = ls.iter().position(|l| l.starts_with("def main(")).unwrap();
    for _ in 0..4 {
        let top = r.chance(1, 3);
        let (name, bad, good) = if top { declaration(&mut r) } else { statement(&mut r, &p) };
        let mk = |at: usize, x: &str| -> String {
            let mut v: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
            v.insert(at, x.to_string());
            format!("{}\n{}", DECLS, v.join("\n"))
        };
        let places: Vec<usize> = if top {
            (0..=ls.len()).filter(|i| *i == ls.len() || ["def ", "struct ", "const "].iter().any(|k| ls[*i].starts_with(k))).collect()
        } else {
            (main + 1..ls.len()).filter(|i| ls[*i].starts_with("    ") && !ls[*i][4..].starts_with(|c| c == ' ' || c == '}')).collect()
        };
        let at = *r.pick(&places);
        let (bad, good) = (mk(at, &format!("    {}", bad)), mk(at, &format!("    {}", good)));
        ctx.case = json!({"wrong": bad, "right": good, "curve": curve.name(), "kind": name});
        let run = |s: &str| {
            let arena = Arena::new();
            compile_with::<D>(s, &arena, None, false).map(|_| ())
        };
        ctx.eval();
        match run(&good) {
            Ok(()) => {}
            Err(e) => {
                // the program may be refused for reasons of its own
                match run(&mk(at, "")) {
                    Err(_) => {
                        ctx.count("base_refused");
                        continue;
                    }
                    Ok(()) => return ctx.violation(&format!("refused:{}:{}", name, good), format!("{}: the program which is right was refused: {:?}\n{}", name, e, good)),
                }
            }
        }
        match run(&bad) {
            Ok(()) => return ctx.violation(&format!("accepted:{}:{}", name, bad), format!("{}: accepted over {}\n{}", name, curve.name(), bad)),
            Err(e) if e.is_panic() => return ctx.violation(&format!("panic:{}:{}", name, bad), format!("{}: {:?}\n{}", name, e, bad)),
            Err(e) => {
                ctx.nontrivial((name, &bad));
                ctx.count(if top { "declarations_refused" } else { "statements_refused" });
                ctx.count(&format!("kind_{}", name));
                let t = e.text().to_string();
                ctx.sample(|| json!({"source": bad, "refused": t, "kind": name}));
            }
        }
    }
    ctx.rng = r;
}

// ------------------------------------------------------------------ T02

const CORPUS: &[&str] = &[
    "from \"EMBED\" import unpack as up, FIELD_SIZE_IN_BITS as NB;\ndef f<N>(field a) -> bool[N] {\n    return up::<N>(a);\n}\ndef main(private field a, public bool[4] b) -> bool {\n    bool[4] c = f::<4>(a);\n    return c == b;\n}\n",
    "const u32 N = 3;\nconst field[N] K = [1, 2, 3];\ntype Vec<M> = field[M];\nstruct Pt<M> {\n    field x;\n    field[M] y;\n}\ndef g<M>(Pt<M> mut p, u32 i) -> Pt<M> {\n    p.x = p.x * 2;\n    p.y[i] = p.x;\n    return p;\n}\ndef main(Pt<N> p, u32 i, private bool b) -> (Pt<N>, Vec<2>) {\n    Pt<N> q = g(p, i);\n    Vec<2> r = b ? [K[0], q.x] : [q.y[1], 7];\n    return (q, r);\n}\n",
    "def main(field a, field b) -> field {\n    field mut c = 0;\n    field mut d = 0;\n    asm {\n        c <-- a == 0 ? 0 : 1 / a;\n        d <== a * c;\n        a * (1 - d) === 0;\n    }\n    log(\"c {} d {}\", c, d);\n    assert(b != 3, \"b is 3\");\n    return d + b;\n}\n",
    "import \"ecc/babyjubjubParams\" as params;\nimport \"hashes/sha256/512bitPacked\" as sha256packed;\nfrom \"utils/casts\" import cast;\nfrom \"utils/pack/bool/pack128\" import main as pack;\ndef main(u8[4] a, field b) -> (u32, field) {\n    u32 x = cast(a);\n    bool[128] z = [false; 128];\n    return (x, pack(z) + b);\n}\n",
    "def sum<N>(u64[N] a) -> u64 {\n    u64 mut r = 0;\n    for u32 i in 0..N {\n        r = r + (a[i] << 3) ^ (a[i] >> 1u32) | 0x00ff00ff00ff00ff & !a[i];\n    }\n    return if N == 1 { r } else { r % 7 };\n}\ndef main(u64[3] a, u64[1] b) -> (u64, bool) {\n    u64[4] c = [...a, ...b];\n    u64 t = sum(c[1..3]) + sum(b);\n    return (t - sum(c), t > 3 && b[0] <= t || !(a == a));\n}\n",
    "struct E {}\ndef nothing(E e) {\n    assert(true);\n    return;\n}\ndef main(field[2][3] a, (bool, (u8,)) t, E e) -> (field[2], u8) {\n    field[2][3] mut b = a;\n    for u32 i in 0..2 {\n        for u32 j in 1..3 {\n            b[i][j] = b[i][j - 1] ** 3 + (t.0 ? 1 : 2);\n        }\n    }\n    nothing(e);\n    return ([b[0][2], b[1][2]], t.1.0 / 3);\n}\n",
    "#pragma curve bn128\ndef cmp(field a) -> bool {\n    return a < 1000;\n}\ndef cmp(u8 a) -> bool {\n    return a < 100;\n}\ndef main(field a, u8 b) -> bool {\n    // comment\n    /* another */\n    u8 mut c = b;\n    bool d = cmp(a) && cmp(c);\n    c = c * 0x02 - 1_u8;\n    return d != (c >= 3u8);\n}\n",
];

const TOKENS: &[&str] = &[
    "field", "bool", "u8", "u16", "u32", "u64", "def", "return", "struct", "const", "type", "import", "from", "as", "for", "in", "if", "else", "mut", "private", "public", "assert", "log", "asm", "true",
    "false", "main", "(", ")", "[", "]", "{", "}", "<", ">", "<<", ">>", "<=", ">=", "==", "!=", "=", "===", "<==", "<--", "-->", "->", "::", ":", ";", ",", ".", "..", "...", "+", "-", "*", "/", "%",
    "**", "&", "&&", "|", "||", "^", "!", "?", "0", "1", "2", "3", "5", "7", "0f", "1u8", "2u32", "255u8", "256u8", "65536u16", "0x", "0xff", "0x0001", "0x00000002", "18446744073709551616",
    "99999999999999999999999999999999999999999999999999999999999999999999999999999999", "\"", "\"EMBED\"", "\"./a\"", "\"\"", "\"{}\"", "x", "N", "E", "Pt", "_", "//", "/*", "*/", "#pragma curve bn128", "\n", "\u{e9}", "\\",
    "4294967296", "1_u8", "7_field", "0 - 1", "a[0]", "b.x", "f(1)", "[1; 2]", "(1,)", "p.0", "Pt { x: 1 }", "::<2>", "u8[2]", "()", "if true { 1 } else { 2 }", "true ? 1 : 2", "unpack", "EMBED",
];

fn tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut c = s.chars().peekable();
    while let Some(x) = c.next() {
        let mut t = x.to_string();
        if x.is_alphanumeric() || x == '_' {
            while c.peek().map_or(false, |y| y.is_alphanumeric() || *y == '_') {
                t.push(c.next().unwrap());
            }
        } else if x == '"' {
            while let Some(y) = c.next() {
                t.push(y);
                if y == '"' {
                    break;
                }
            }
        } else if "<>=-.*&|:!".contains(x) {
            while c.peek().map_or(false, |y| "<>=-.*&|:".contains(*y)) {
                t.push(c.next().unwrap());
            }
        }
        v.push(t);
    }
    v
}

fn mutate(r: &mut Rng, s: &str, others: &str) -> String {
    let mut t = tokens(s);
    let o = tokens(others);
    for _ in 0..r.range(1, 3) {
        if t.is_empty() {
            break;
        }
        let solid: Vec<usize> = (0..t.len()).filter(|i| !t[*i].trim().is_empty()).collect();
        if solid.is_empty() {
            break;
        }
        let i = *r.pick(&solid);
        let j = *r.pick(&solid);
        match r.below(10) {
            0 => drop(t.remove(i)),
            1 => t.insert(i, format!(" {} ", r.pick(TOKENS))),
            2 | 3 => t[i] = format!(" {} ", r.pick(TOKENS)),
            4 => t.swap(i, j),
            5 | 6 => t[i] = t[j].clone(),
            7 => t[i] = r.pick(&o).clone(),
            8 => {
                // move or copy some tokens
                let (a, b) = (i, (i + r.range(1, 12)).min(t.len()));
                let piece: Vec<String> = t[a..b].to_vec();
                if r.chance(1, 2) {
                    t.drain(a..b);
                }
                let k = r.below(t.len() + 1);
                t.splice(k..k, piece);
            }
            _ => {
                // a line
                let mut ls: Vec<String> = t.concat().lines().map(String::from).collect();
                if ls.len() > 1 {
                    let (a, b) = (r.below(ls.len()), r.below(ls.len()));
                    match r.below(3) {
                        0 => ls.swap(a, b),
                        1 => drop(ls.remove(a)),
                        _ => ls.insert(a, ls[b].clone()),
                    }
                }
                t = tokens(&ls.join("\n"));
            }
        }
    }
    t.concat()
}

fn t02(ctx: &mut Ctx, idx: u64) {
    let curve = any_curve(ctx);
    dynf::select(curve);
    let p = curve.p();
    let mut r = ctx.rng.clone();
    let pf = Profile { stmts: r.range(1, 5), max_depth: r.range(1, 3), logs: r.chance(1, 2), asserts: r.chance(1, 2), ..Profile::base() };
    let gen = Gen::program(&mut r, &pf, &p).render();
    let base = if idx % 2 == 0 { gen.clone() } else { r.pick(CORPUS).to_string() };
    for _ in 0..6 {
        let other = if r.chance(1, 2) { gen.as_str() } else { *r.pick(CORPUS) };
        let src = mutate(&mut r, &base, other);
        let debug = r.chance(1, 3);
        ctx.case = json!({"source": src, "curve": curve.name(), "debug": debug});
        ctx.eval();
        ctx.nontrivial(&src);
        let arena = Arena::new();
        let root = stdlib_root();
        let fs = zokrates_fs_resolver::FileSystemResolver::with_stdlib_root(&root);
        match compile_with::<D>(&src, &arena, Some(&fs), debug) {
            Err(e) if e.is_panic() => {
                // identified by the panic, not by the source
                return ctx.violation(e.text(), format!("compiling crashed: {}\n{}", e.text(), src));
            }
            Err(_) => ctx.count("refused"),
            Ok(c) => {
                ctx.count("accepted");
                let ci = cir(&c.prog);
                let ins: Vec<BigUint> = ci.args.iter().map(|_| BigUint::from(r.below(3))).collect();
                if let Exec::Panic(e) = execute(&c.prog, &ins) {
                    return ctx.violation(&format!("execution: {}", e), format!("execution with {:?} crashed: {}\n{}", ins, e, src));
                }
                ctx.count("executed");
            }
        }
    }
    ctx.rng = r;
}

pub fn props() -> Vec<Prop> {
    let d = |id, rule, assumptions, run, quick, thorough, require| Prop { id, level: "exploration", rule, assumptions, quick, thorough, quick_s: 45, thorough_s: 800, run, require };
    vec![
        d(
            "T01",
            "a case is a generated program with one wrong statement or declaration put into it, and the same with the mistake put right; non-trivial cases are distinct wrong programs which were refused",
            &["each kind of mistake is one by the documentation of the language"] as &'static [&'static str],
            t01 as fn(&mut Ctx, u64),
            3000u64,
            100_000u64,
            &["statements_refused", "declarations_refused", "kind_immutable", "kind_definition_type", "kind_no_return"] as &'static [&'static str],
        ),
        d(
            "T02",
            "a case is a set of mutated sources; non-trivial cases are distinct sources",
            &["numbers that make programs large are not used"],
            t02,
            8000,
            300_000,
            &["refused", "accepted", "executed"],
        ),
    ]
}
