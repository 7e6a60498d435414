//! Builds and runs the program for a set of bridge modules.
use bgen::render::Text;
use bgen::Lang;
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Output};

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let p = pbt::sys::temp_path("e2e");
        fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    pub fn put(&self, name: &str, text: &str) -> PathBuf {
        let p = self.0.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, text).unwrap();
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if std::env::var_os("E2E_KEEP").is_none() {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

pub fn target() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().to_owned()
}

pub fn run(cmd: &[&str], dir: &Path) -> Output {
    // A bound on every process, also when the worker itself is killed.
    Command::new("timeout").arg("-k").arg("1").arg("100").args(cmd).current_dir(dir).output().expect("timeout")
}

pub fn errors(o: &Output, pats: &[&str]) -> String {
    let all = String::from_utf8_lossy(&o.stderr).into_owned() + &String::from_utf8_lossy(&o.stdout);
    let lines: Vec<&str> = all.lines().filter(|l| pats.iter().any(|p| l.contains(p))).collect();
    let t = if lines.is_empty() { all.lines().rev().take(5).collect::<Vec<_>>().join(" | ") } else { lines[..lines.len().min(4)].join(" | ") };
    t.chars().take(700).collect()
}

pub struct Generated {
    pub header: String,
    pub implementation: String,
}

pub fn generate(module: &str) -> Result<Generated, String> {
    let mut opt = cxx_gen::Opt::default();
    opt.include.clear();
    generate_with(module, &opt)
}

pub fn generate_with(module: &str, opt: &cxx_gen::Opt) -> Result<Generated, String> {
    let tokens: cxx_gen_tokens::TokenStream = module.parse().map_err(|e| format!("generator rejected (tokens): {e:?}"))?;
    let g = cxx_gen::generate_header_and_cc(tokens, opt).map_err(|e| format!("generator rejected: {e}"))?;
    Ok(Generated { header: String::from_utf8(g.header).map_err(|_| "generator wrote invalid UTF-8")?, implementation: String::from_utf8(g.implementation).map_err(|_| "generator wrote invalid UTF-8")? })
}

pub use proc_macro2 as cxx_gen_tokens;

/// Further code of the program: Rust in a module inside the first module, C++
/// at the end, and drives (number, function in the Rust code, description).
#[derive(Default)]
pub struct Extra {
    pub rust: String,
    pub cc: String,
    pub drives: Vec<(u32, String, String)>,
}

/// Builds one program of the modules and runs it; returns the number of calls.
pub fn exercise(mods: &[Text], rounds: u64, seed: u64) -> Result<u64, String> {
    exercise_with(mods, &Extra::default(), rounds, seed)
}

pub fn exercise_with(mods: &[Text], extra: &Extra, rounds: u64, seed: u64) -> Result<u64, String> {
    let dir = Dir::new();
    let d = &dir.0;
    let mut main = String::from("#![allow(warnings)]\nextern crate lab;\n");
    let mut cc = String::new();
    for (i, m) in mods.iter().enumerate() {
        let rust = m.rust();
        let bridge = m.bridge(&format!("impl{}.h", m.tag));
        let g = generate(&bridge)?;
        dir.put(&format!("gen{i}.h"), &g.header);
        dir.put(&format!("gen{i}.cc"), &g.implementation);
        dir.put(&format!("impl{}.h", m.tag), &m.impl_h());
        let more = if i == 0 && !extra.rust.is_empty() { format!("pub mod lab_extra {{\n#![allow(warnings)]\n{}\n}}\n", extra.rust) } else { String::new() };
        let _ = writeln!(main, "mod m{i} {{\n{rust}\n{more}}}");
        let _ = writeln!(cc, "#include \"gen{i}.h\"");
    }
    // Generated implementations of several modules are translation units of
    // their own, as for any user.
    let mut files = vec!["main.cc".to_owned()];
    if mods.len() == 1 {
        let _ = writeln!(cc, "#include \"gen0.cc\"");
    } else {
        files.extend((0..mods.len()).map(|i| format!("gen{i}.cc")));
    }
    for m in mods {
        cc += &m.impl_cc();
    }
    cc += &extra.cc;
    cc += "#include \"lab_main.h\"\n";
    main += "fn main() {\n    let mut d: ::std::vec::Vec<(u32, fn(u64))> = ::std::vec::Vec::new();\n";
    for i in 0..mods.len() {
        let _ = writeln!(main, "    d.extend(m{i}::LAB_DRIVES);");
    }
    for (id, f, _) in &extra.drives {
        let _ = writeln!(main, "    d.push(({id}, m0::lab_extra::{f}));");
    }
    let _ = writeln!(main, "    ::lab::run(&d, {rounds}, {seed});\n}}");
    dir.put("main.rs", &main);
    dir.put("main.cc", &cc);
    build_and_run(mods, extra, d, &files)
}

pub fn compile_cc(d: &Path, files: &[String]) -> Result<(), String> {
    let inc = format!("-I{}", target().join("inc").display());
    let pch = target().join("inc/lab_pch.h.pch").display().to_string();
    let mut cmd = vec!["clang++", "-std=c++20", "-fsanitize=address", "-O0", "-include-pch", &pch, &inc, "-I.", "-Wno-everything", "-ferror-limit=3", "-c"];
    cmd.extend(files.iter().map(|f| f.as_str()));
    let o = run(&cmd, d);
    if !o.status.success() {
        return Err(format!("C++ compilation failed: {}", errors(&o, &["error:"])));
    }
    Ok(())
}

pub fn rustc(d: &Path, extra: &[&str]) -> Output {
    rustc_in(d, "2021", "--cap-lints=allow", extra)
}

pub fn rustc_in(d: &Path, edition: &str, cap: &str, extra: &[&str]) -> Output {
    let t = target();
    let lab = format!("lab={}", t.join("x86_64-unknown-linux-gnu/debug/liblab.rlib").display());
    let cxx = format!("cxx={}", fs::read_to_string(t.join("cxx.rlib")).unwrap().trim());
    let l1 = format!("dependency={}", t.join("x86_64-unknown-linux-gnu/debug/deps").display());
    let l2 = format!("dependency={}", t.join("debug/deps").display());
    let mut cmd = vec![
        "rustc", "--edition", edition, "main.rs", "--target", "x86_64-unknown-linux-gnu", "-Zsanitizer=address", "--extern", &lab, "--extern", &cxx, "-L", &l1, "-L", &l2, "-Cdebuginfo=0", "-Copt-level=0", "-Clinker=clang++", cap,
    ];
    cmd.extend(extra);
    run(&cmd, d)
}

fn build_and_run(mods: &[Text], extra: &Extra, d: &Path, files: &[String]) -> Result<u64, String> {
    compile_cc(d, files)?;
    let objs: Vec<String> = files.iter().map(|f| format!("-Clink-arg={}", f.replace(".cc", ".o"))).collect();
    let mut args: Vec<&str> = objs.iter().map(|o| o.as_str()).collect();
    args.extend(["-Clink-arg=-fuse-ld=lld", "-o", "prog"]);
    let o = rustc(d, &args);
    if !o.status.success() {
        let e = errors(&o, &["error"]);
        let all = String::from_utf8_lossy(&o.stderr);
        if all.contains("undefined symbol") || all.contains("duplicate symbol") {
            return Err(format!("link failed: {}", errors(&o, &["undefined symbol", "duplicate symbol"])));
        }
        return Err(format!("Rust compilation failed: {e}"));
    }
    let o = run(&["./prog"], d);
    let out = String::from_utf8_lossy(&o.stdout);
    if o.status.success() {
        return out.lines().find_map(|l| l.strip_prefix("calls ")).and_then(|n| n.parse().ok()).ok_or_else(|| "run stopped early".to_owned());
    }
    if let Some(l) = out.lines().find_map(|l| l.strip_prefix("FAIL ")) {
        let id: u32 = l.split(' ').next().unwrap().parse().unwrap();
        let what = extra.drives.iter().find(|x| x.0 == id).map_or_else(|| describe(mods, id), |x| x.2.clone());
        return Err(format!("run mismatch: in {what}: {l}"));
    }
    Err(format!("run crashed ({}): {}", o.status, errors(&o, &["ERROR: AddressSanitizer", "SUMMARY", "terminate called", "panicked at", "what()"])))
}

pub fn describe(mods: &[Text], id: u32) -> String {
    for m in mods {
        if let Some(k) = id.checked_sub(m.base) {
            if let Some(f) = m.b.fns.get(k as usize) {
                let dir = if f.lang == Lang::Cxx { "Rust->C++" } else { "C++->Rust" };
                return format!("{dir} {}", m.fn_decl(f, k as usize, None, &f.name.ns).trim());
            }
        }
    }
    format!("#{id}")
}
