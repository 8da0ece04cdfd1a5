mod addr;
mod chan;
mod ident;
mod refpeer;
mod shake;

use mc_engine::{main_cli, Check};

fn main() {
    main_cli(vec![
        Check { property: "S01", assumptions: vec!["the cryptographic primitives are not broken"], scenarios: shake::s01 },
        Check { property: "S02", assumptions: vec!["the cryptographic primitives are not broken"], scenarios: shake::s02 },
        Check { property: "S03", assumptions: vec!["the cryptographic primitives are not broken"], scenarios: chan::s03 },
        Check { property: "S04", assumptions: vec!["the cryptographic primitives are not broken"], scenarios: chan::s04 },
        Check { property: "S05", assumptions: vec![], scenarios: ident::s05 },
        Check { property: "A01", assumptions: vec![], scenarios: addr::a01 },
    ])
}
