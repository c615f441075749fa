//! toys/ is a program without a library: its modules are compiled into the harness.
use std::path::Path;

fn main() {
  let src = "/repo/toys/src";
  let mut out = String::new();
  for root in ["main.rs", "lib.rs"] {
    let text = std::fs::read_to_string(Path::new(src).join(root)).unwrap_or_default();
    for line in text.lines() {
      let line = line.trim();
      let line = line.strip_prefix("pub(crate) ").or(line.strip_prefix("pub ")).unwrap_or(line);
      if let Some(name) = line.strip_prefix("mod ").and_then(|l| l.split(';').next().filter(|_| l.contains(';'))) {
        let name = name.trim();
        let flat = format!("{}/{}.rs", src, name.trim_start_matches("r#"));
        let file = if Path::new(&flat).exists() { flat } else { format!("{}/{}/mod.rs", src, name) };
        let item = format!("#[allow(dead_code, unused_imports)]\n#[path = \"{}\"]\nmod {};\n", file, name);
        if !out.contains(&item) {
          out.push_str(&item);
        }
      }
    }
  }
  std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("modules.rs"), out).unwrap();
  println!("cargo:rerun-if-changed={}", src);
}
