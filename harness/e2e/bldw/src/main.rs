//! A build script driven by its arguments: key=value for the configuration, then
//! any number of `bridges` PATH... groups.
use std::path::Path;

/// One access to the settings: what is read before, a change, what is read after.
#[inline(never)]
fn access(how: &str, v: &'static str) {
    let mut c = cxx_build::CFG;
    let reads = how.contains('r');
    if reads { show(&c.include_prefix, &c.exported_header_dirs, &c.exported_header_prefixes, &c.exported_header_links, c.doxygen); }
    match how.as_bytes()[0] {
        b'p' => c.include_prefix = v,
        b'd' => c.exported_header_dirs.push(Path::new(v)),
        b'h' => c.exported_header_prefixes.push(v),
        b'l' => c.exported_header_links.insert(0, v),
        b'D' => c.exported_header_dirs.clear(),
        b'H' => { c.exported_header_prefixes.pop(); }
        b'L' => c.exported_header_links = vec![v, v],
        b'M' => c.exported_header_links = Vec::new(),
        b'x' => c.doxygen = v == "1",
        _ => {}
    }
    if reads || how.contains('R') { show(&c.include_prefix, &c.exported_header_dirs, &c.exported_header_prefixes, &c.exported_header_links, c.doxygen); }
    if how.contains('g') { println!("lab:debug {c:?}"); }
}
/// The same without a variable.
#[inline(never)]
fn direct(how: &str, v: &'static str) {
    use cxx_build::CFG;
    let reads = how.contains('r');
    if reads { show(&CFG.include_prefix, &CFG.exported_header_dirs, &CFG.exported_header_prefixes, &CFG.exported_header_links, CFG.doxygen); }
    match how.as_bytes()[0] {
        b'p' => CFG.include_prefix = v,
        b'd' => CFG.exported_header_dirs.extend([Path::new(v)]),
        b'h' => CFG.exported_header_prefixes.extend([v]),
        b'l' => CFG.exported_header_links.insert(0, v),
        b'D' => CFG.exported_header_dirs.clear(),
        b'H' => { CFG.exported_header_prefixes.pop(); }
        b'L' => CFG.exported_header_links = vec![v, v],
        b'M' => CFG.exported_header_links = Vec::new(),
        b'x' => CFG.doxygen = v == "1",
        _ => {}
    }
    if reads || how.contains('R') { show(&CFG.include_prefix, &CFG.exported_header_dirs, &CFG.exported_header_prefixes, &CFG.exported_header_links, CFG.doxygen); }
    if how.contains('g') { println!("lab:debug {:?}", CFG); }
}
fn show(p: &str, d: &[&Path], h: &[&str], l: &[&str], x: bool) {
    println!("lab:cfg {p:?} {d:?} {h:?} {l:?} {x}");
}
fn settings(args: Vec<String>) {
    for a in args {
        let (how, v) = a.split_once('=').unwrap();
        let v: &'static str = Box::leak(v.to_owned().into_boxed_str());
        if let Some(how) = how.strip_prefix('b') {
            assert!(how.is_empty());
            let _ = cxx_build::bridge(v);
        } else if let Some(how) = how.strip_prefix('t') {
            let how = how.to_owned();
            std::thread::spawn(move || if how.contains('v') { access(&how, v) } else { direct(&how, v) }).join().unwrap();
        } else if how.contains('v') {
            access(how, v);
        } else {
            direct(how, v);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "settings") { return settings(args[1..].to_vec()); }
    let mut i = 0;
    while i < args.len() && args[i] != "bridges" {
        let (k, v) = args[i].split_once('=').unwrap();
        match k {
            "prefix" => cxx_build::CFG.include_prefix = v,
            "dir" => cxx_build::CFG.exported_header_dirs.push(Path::new(v)),
            "hprefix" => cxx_build::CFG.exported_header_prefixes.push(v),
            "hlink" => cxx_build::CFG.exported_header_links.push(v),
            "doxygen" => cxx_build::CFG.doxygen = true,
            _ => panic!("{k}"),
        }
        i += 1;
    }
    while i < args.len() {
        assert_eq!(args[i], "bridges");
        let n = args[i + 1..].iter().position(|a| a == "bridges").map_or(args.len(), |n| i + 1 + n);
        let paths = &args[i + 1..n];
        let build = if paths.len() == 1 { cxx_build::bridge(&paths[0]) } else { cxx_build::bridges(paths) };
        let d = format!("{build:?}");
        for key in ["include_directories: [", "files: ["] {
            let at = d.find(key).unwrap() + key.len();
            println!("lab:{key}{}", &d[at..at + d[at..].find(']').unwrap()]);
        }
        println!("lab:compiler {} {}", d.contains(" cpp: true"), d.contains("cpp_link_stdlib: Some(None)"));
        i = n;
    }
}
