//! Takes the channel's sources from /repo three times: as they are, for single-threaded
//! operation sequences; with `std` and `futures` replaced by `crate::shim_weak`, whose
//! synchronisation primitives are loom's; and with those of `crate::shim_sc`, which are
//! scheduling points of our own scheduler.
use std::{fs, path::Path};

const SRC: &str = "../../repo/tentacle/src/channel";

fn is_ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Replace the path root `from` (e.g. `std::`) by `to` wherever it starts a path.
fn reroot(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(from) {
        let before = &rest[..i];
        let mut keep = before;
        let absolute = before.ends_with("::")
            && !before[..before.len() - 2].chars().last().map_or(false, |c| is_ident(c) || c == '>');
        let nested = before.ends_with("::") && !absolute;
        let part = before.chars().last().map_or(false, is_ident);
        if absolute {
            keep = &before[..before.len() - 2];
        }
        out.push_str(keep);
        out.push_str(if nested || part { from } else { to });
        rest = &rest[i + from.len()..];
    }
    out.push_str(rest);
    out
}

fn main() {
    println!("cargo:rerun-if-changed={}", SRC);
    for variant in &["plain", "weak", "sc"] {
        let out = Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap())
            .join("gen")
            .join(variant)
            .join("channel");
        let _ = fs::remove_dir_all(&out);
        copy(Path::new(SRC), &out, variant);
    }
}

fn copy(from: &Path, to: &Path, variant: &str) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        println!("cargo:rerun-if-changed={}", e.path().display());
        if e.path().is_dir() {
            copy(&e.path(), &to.join(e.file_name()), variant);
            continue;
        }
        let mut t = fs::read_to_string(e.path()).unwrap();
        t = reroot(&t, "crate::channel", &format!("crate::{}_chan::channel", variant));
        if variant != "plain" {
            let shim = format!("crate::shim_{}::", variant);
            t = reroot(&t, "std::", &format!("{}std::", shim));
            t = reroot(&t, "core::", &format!("{}std::", shim));
            t = reroot(&t, "futures::", &format!("{}futures::", shim));
        }
        fs::write(to.join(e.file_name()), t).unwrap();
    }
}
