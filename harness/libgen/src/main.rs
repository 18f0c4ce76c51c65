// libgen FILE OUTDIR [INCLUDE DIR...]: the library entry point, as a build script would call it.
use std::path::{Path, PathBuf};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let incs: Vec<PathBuf> = a[3..].iter().map(PathBuf::from).collect();
    match idlc::Language::Rust.generate(&incs, Path::new(&a[1])) {
        Ok(files) => {
            for (name, text) in files {
                std::fs::write(Path::new(&a[2]).join(name), text).unwrap();
            }
        }
        Err(e) => {
            eprintln!("error: {e}");
            std::process::exit(1);
        }
    }
}
