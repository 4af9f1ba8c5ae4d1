//! vh: runtime monitors for ZoKrates. `vh run ID`, `vh worker ...`, `vh replay ID file`.
mod props;
mod refs;
mod run;
mod sound;

use vlib::{dynf, engine, prng, prog};

fn main() {
    run::main()
}
