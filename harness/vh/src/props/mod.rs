mod asm;
mod cli;
mod field;
mod files;
mod modules;
mod lang;
mod lang2;
mod misc;
mod nova;
mod source;
mod stdlib;
mod sound;
use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(lang::props());
    v.extend(lang2::props());
    v.extend(sound::props());
    v.extend(field::props());
    v.extend(files::props());
    v.extend(misc::props());
    v.extend(asm::props());
    v.extend(cli::props());
    v.extend(modules::props());
    v.extend(nova::props());
    v.extend(source::props());
    v.extend(stdlib::all());
    v
}

/// `vh tool exec FILE CURVE INPUT..`: compile, show and run a program (debugging aid)
pub fn tool(a: &[String]) {
    crate::engine::install_panic_hook();
    use crate::engine::*;
    if a.get(0).map(|s| s.as_str()) == Some("exec") {
        let src = std::fs::read_to_string(&a[1]).unwrap();
        let curve = *CURVES.iter().find(|c| c.name() == a[2]).unwrap();
        crate::dynf::select(curve);
        fn go(src: &str, ins: &[String]) {
            let arena = typed_arena::Arena::new();
            match compile_std::<crate::dynf::D>(src, &arena) {
                Err(e) => println!("{:?}", e),
                Ok(c) => {
                    let ci = cir(&c.prog);
                    println!("written: {:?}", vf::write(&c.prog).map(|r| r.map(|x| x.0)));
                    println!("{}", ci.show());
                    if ci.args.len() == ins.len() {
                        let v: Vec<_> = ins.iter().map(|s| s.parse().unwrap()).collect();
                        let ex = execute(&c.prog, &v);
                        println!("{}", ex.show());
                        if let Exec::Ok(w, l) = &ex {
                            println!("{}outputs {:?} {:?}", l, outputs(w, ci.nret).unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>(), ci.violated(&wit(w)));
                        }
                    }
                }
            }
        }
        go(&src, &a[3..]);
    }
}
