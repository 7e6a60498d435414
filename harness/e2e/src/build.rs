//! C25: what cxx_build writes, and where. The build script runs as an
//! unprivileged user who owns nothing but the scratch directory.
use crate::prog::{self, Dir};
use pbt::{Entry, Prop, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Output, Stdio};

pub fn entry() -> Entry {
    Entry {
        id: "C25",
        rule: "A case is a history of builds of a package (sources edited, paths spelled with . and .. and absolute, prefixes and packages changed, obstacles planted at output paths), or a random graph of packages with exports; after each build the whole scratch tree is compared with a model. Non-trivial when a path has . or .. or is absolute, an output is stale or obstructed, or a dependency is involved.",
        assumptions: &["Unix symlinks; include prefixes are relative paths of normal components (and .).", "Distinct sources have distinct normalised paths."],
        props: vec![
            Prop { name: "history", quick: 900, thorough: 20_000, f: history },
            Prop { name: "graph", quick: 900, thorough: 20_000, f: graph },
            Prop { name: "settings", quick: 1_500, thorough: 30_000, f: settings },
            Prop { name: "invalid", quick: 300, thorough: 4_000, f: invalid },
        ],
    }
}

const NOBODY: u32 = 65534;

pub struct Package {
    pub root: PathBuf,
    pub name: String,
    pub manifest: PathBuf,
    pub target: PathBuf,
    pub links: Option<String>,
}

impl Package {
    pub fn new(root: &Path, name: &str) -> Package {
        let p = Package { root: root.to_owned(), name: name.to_owned(), manifest: root.join(name), target: root.join("target"), links: None };
        fs::create_dir_all(&p.manifest).unwrap();
        fs::create_dir_all(p.out()).unwrap();
        fs::write(p.target.join("CACHEDIR.TAG"), "x").unwrap();
        p
    }
    pub fn out(&self) -> PathBuf {
        self.target.join(format!("debug/build/{}-0123456789/out", self.name))
    }
    pub fn run(&self, env: &[(String, String)], args: &[&str]) -> Output {
        // The driver is copied to where the other user can reach it.
        let exe = self.root.join("build-script");
        if !exe.exists() {
            fs::copy(prog::target().join("debug/bldw"), &exe).unwrap();
            fs::set_permissions(&exe, fs::Permissions::from_mode(0o755)).unwrap();
        }
        open_up(&self.root);
        give(&self.root);
        let mut cmd = Command::new("timeout");
        cmd.args(["-k", "1", "60"]).arg(&exe).args(args).env_clear().current_dir(&self.manifest).stdin(Stdio::null());
        cmd.env("PATH", "/usr/bin:/bin").env("CARGO_MANIFEST_DIR", &self.manifest).env("OUT_DIR", self.out()).env("CARGO_PKG_NAME", &self.name).env("HOME", &self.root).env("NO_COLOR", "1");
        if let Some(l) = &self.links { cmd.env("CARGO_MANIFEST_LINKS", l); }
        for (k, v) in env { cmd.env(k, v); }
        cmd.uid(NOBODY).gid(NOBODY);
        cmd.output().expect("run as an unprivileged user")
    }
}

/// Everything below (not through links) belongs to the unprivileged user.
fn give(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
    let Ok(m) = fs::symlink_metadata(p) else { return };
    if m.is_dir() {
        let Ok(d) = fs::read_dir(p) else { return };
        for e in d.flatten() { give(&e.path()); }
    }
}

/// The private temporary directories above can be passed through.
fn open_up(p: &Path) {
    let tmp = std::env::temp_dir();
    for a in p.ancestors() {
        if a == Path::new("/tmp") || !a.starts_with(&tmp) { break; }
        if let Ok(m) = fs::metadata(a) {
            let mode = m.permissions().mode();
            if mode & 0o111 != 0o111 { let _ = fs::set_permissions(a, fs::Permissions::from_mode(mode | 0o111)); }
        }
    }
    let _ = chown(p, Some(NOBODY), Some(NOBODY));
}

#[derive(Clone, PartialEq, Debug)]
enum Node {
    File(Vec<u8>, (i64, i64, u64)),
    Link(PathBuf),
    Dir,
}

fn snapshot(p: &Path, out: &mut BTreeMap<PathBuf, Node>) {
    let Ok(m) = fs::symlink_metadata(p) else { return };
    if m.file_type().is_symlink() {
        out.insert(p.to_owned(), Node::Link(fs::read_link(p).unwrap()));
    } else if m.is_dir() {
        out.insert(p.to_owned(), Node::Dir);
        for e in fs::read_dir(p).unwrap().flatten() { snapshot(&e.path(), out); }
    } else {
        out.insert(p.to_owned(), Node::File(fs::read(p).unwrap_or_default(), (m.mtime(), m.mtime_nsec(), m.ino())));
    }
}

/// Where output for a path belongs: its components, `..` never above the top.
fn local(path: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => { v.pop(); }
            c => v.push(c),
        }
    }
    v.join("/")
}

fn source(s: &mut Src, id: u32) -> String {
    let n = s.below(1000);
    let k = s.below(3);
    let mut t = format!("#[cxx::bridge(namespace = \"n{id}\")]\nmod ffi {{\n");
    t += match k {
        0 => "struct S { a: u8 }\n",
        1 => "#[repr(u8)] enum E { A, B }\n",
        _ => "/// Documented.\n/// Twice.\nstruct D { a: String, b: u32 }\n",
    };
    t += &format!("extern \"Rust\" {{ fn f{n}(); }}\n}}\n");
    t
}

fn expect(text: &str, doxygen: bool) -> (String, String) {
    let g = prog::generate_with(text, &cxx_gen::Opt::default()).unwrap();
    // The option cannot be given to the library: it makes /// of the comments.
    let fix = |t: String| if doxygen { t.replace("// Documented.", "/// Documented.").replace("// Twice.", "/// Twice.") } else { t };
    (fix(g.header), fix(g.implementation))
}

fn norm(p: &Path) -> PathBuf {
    p.components().filter(|c| !matches!(c, Component::CurDir)).collect()
}

fn history(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let root = dir.0.clone();
    let name = *s.pick(&["pk", "my-pkg", "a_b", "p3"]);
    let mut p = Package::new(&root, name);
    let mut env: Vec<(String, String)> = Vec::new();
    let kind_of_target = s.below(6);
    match kind_of_target {
        0 => env.push(("CARGO_TARGET_DIR".to_owned(), p.target.display().to_string())),
        1 => {
            // The target directory is somewhere else.
            fs::remove_dir_all(&p.target).unwrap();
            fs::create_dir_all(root.join("vol/deep/er")).unwrap();
            std::os::unix::fs::symlink(root.join("vol/deep/er"), root.join("target")).unwrap();
            p = Package::new(&root, name);
        }
        _ => {}
    }
    let header = match s.below(3) {
        0 => {
            // The header of the cxx crate itself.
            let h = root.join("dep/include/cxx.h");
            fs::create_dir_all(h.parent().unwrap()).unwrap();
            fs::write(&h, "// header of a dependency\n").unwrap();
            env.push(("DEP_CXXBRIDGE1_HEADER".to_owned(), h.display().to_string()));
            "// header of a dependency\n".to_owned()
        }
        _ => fs::read_to_string("/repo/include/cxx.h").unwrap(),
    };
    // Things that are none of its business.
    for f in ["precious.h", "src/keep.rs", "pk/Cargo.toml", "target/debug/other.rs.h", "target/debug/build/other/out/cxxbridge/include/x.h", "ext/ext.h"] {
        dir.put(f, &format!("// {f}\n"));
    }
    dir.put(&format!("target/debug/build/{name}-0123456789/out/mine.h"), "// mine\n");
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let abs = root.display().to_string();
    let spell: Vec<String> = vec!["src/lib.rs".into(), "./src/a.rs".into(), "src/../src/b.rs".into(), "../ext/x.rs".into(), "../../../../../../../../../../..".to_owned() + &abs + "/ext/y.rs", format!("{abs}/ext/z.rs"), "src/./deep//er/c.rs".into(), "src/with space.rs".into(), "src/é.rs".into(), "noext".into(), "src/.hidden.rs".into(), "src/mod.rs.rs".into(), "gen/../../ext/../ext/w.rs".into(), "src/dir.rs/inner.rs".into(), format!("{abs}/{name}/src/q.rs"), "./././k.rs".into()];
    let steps = s.urange(1, 5);
    let mut log = String::new();
    let mut last = Vec::new();
    for step in 0..steps {
        // Edit sources.
        let mut chosen: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..s.urange(1, 4) { chosen.insert(s.us(spell.len())); }
        let mut paths: Vec<String> = Vec::new();
        for k in &chosen {
            let path = &spell[*k];
            if !files.contains_key(path) || s.chance(1, 3) {
                let t = source(s, *k as u32);
                let real = if let Some(i) = path.find(&abs) { PathBuf::from(&path[i..]) } else { p.manifest.join(path) };
                // Directories that are passed through must exist.
                let mut walk = if path.contains(&abs) { PathBuf::from("/") } else { p.manifest.clone() };
                for c in Path::new(path).components() {
                    match c { Component::ParentDir => { walk.pop(); } Component::Normal(c) => { walk.push(c); if walk != real && walk.starts_with(&root) && c.to_str() != real.file_name().unwrap().to_str() { let _ = fs::create_dir_all(&walk); } } _ => {} }
                }
                let _ = fs::create_dir_all(real.parent().unwrap());
                fs::write(&real, &t).map_err(|e| format!("HARNESS: {}: {e}", real.display()))?;
                files.insert(path.clone(), t);
            }
            if path.contains("..") || path.contains("./") || path.starts_with('/') { s.nontrivial(); }
            paths.push(path.clone());
        }
        let prefix = if s.chance(1, 2) { None } else { Some(*s.pick(&["", "x", "a/b", "./c", "d/", "e//f", "g/./h", "rust"])) };
        let pre = prefix.map_or(name.to_owned(), local);
        let doxygen = s.chance(1, 5);
        let out = p.out();
        let inc = if pre.is_empty() { out.join("cxxbridge/include") } else { out.join("cxxbridge/include").join(&pre) };
        let src = if pre.is_empty() { out.join("cxxbridge/sources") } else { out.join("cxxbridge/sources").join(&pre) };
        // Obstacles at the places of the output.
        if s.chance(1, 3) {
            let r = local(s.pick(&paths[..]).as_str());
            let at = match s.below(5) { 0 => inc.join(format!("{r}.h")), 1 => src.join(format!("{r}.cc")), 2 => inc.join(&r), 3 => out.join("cxxbridge/include/rust/cxx.h"), _ => p.target.join("cxxbridge").join(&pre).join(format!("{r}.h")) };
            let kind = s.below(6);
            let _ = fs::create_dir_all(at.parent().unwrap());
            match fs::symlink_metadata(&at) { Ok(m) if m.is_dir() => { let _ = fs::remove_dir_all(&at); } Ok(_) => { let _ = fs::remove_file(&at); } _ => {} }
            let _ = match kind {
                0 => fs::write(&at, "// stale\n"),
                1 => std::os::unix::fs::symlink(root.join("precious.h"), &at),
                2 => std::os::unix::fs::symlink(root.join("nowhere"), &at),
                3 => fs::create_dir_all(at.join("sub")).and_then(|()| fs::write(at.join("sub/f"), "x")),
                4 => fs::write(&at, ""),
                _ => std::os::unix::fs::symlink(root.join("ext"), &at),
            };
            log += &format!("obstacle {kind} at {}\n", at.strip_prefix(&root).unwrap_or(&at).display());
            s.nontrivial();
        }
        let mut before = BTreeMap::new();
        give(&root);
        snapshot(&root, &mut before);
        let mut args: Vec<String> = Vec::new();
        if let Some(x) = prefix { args.push(format!("prefix={x}")); }
        if doxygen { args.push("doxygen=1".to_owned()); }
        // One call or several.
        if s.coin() { args.push("bridges".into()); args.extend(paths.iter().cloned()); } else { for x in &paths { args.push("bridges".into()); args.push(x.clone()); } }
        log += &format!("step {step}: {args:?} {env:?}\n").replace(&abs, "$ROOT");
        s.key(log.as_bytes());
        s.note(|| log.clone());
        let o = p.run(&env, &args.iter().map(String::as_str).collect::<Vec<_>>());
        if !o.status.success() {
            return Err(format!("step {step}: the build fails: {}", String::from_utf8_lossy(&o.stderr).replace(&abs, "$ROOT")));
        }
        let mut after = BTreeMap::new();
        snapshot(&root, &mut after);
        let rel = |p: &Path| p.display().to_string().replace(&abs, "$ROOT");
        // Nothing changed anywhere else.
        let real_target = p.target.canonicalize().unwrap();
        let real_out = p.out().canonicalize().unwrap();
        let ours = |f: &Path| f.starts_with(real_out.join("cxxbridge")) || f.starts_with(real_target.join("cxxbridge")) || f == root.join("build-script");
        for f in before.keys().chain(after.keys()) {
            if !ours(f) && before.get(f) != after.get(f) {
                return Err(format!("step {step}: {} was {}", rel(f), if !before.contains_key(f) { "created" } else if !after.contains_key(f) { "removed" } else { "changed" }));
            }
        }
        // Everything is where it belongs.
        let check = |at: &Path, want: &str, what: &str| -> Result<(), String> {
            match fs::read_to_string(at) {
                Ok(t) if t == want => Ok(()),
                Ok(_) => Err(format!("step {step}: {what} at {} has other content", rel(at))),
                Err(e) => Err(format!("step {step}: no {what} at {}: {e}", rel(at))),
            }
        };
        for path in &paths {
            let (h, c) = expect(&files[path], doxygen);
            let r = local(path);
            check(&inc.join(format!("{r}.h")), &h, "header")?;
            check(&src.join(format!("{r}.cc")), &c, "source")?;
            check(&inc.join(&r), &h, "header under the name of the Rust file")?;
            check(&p.target.join("cxxbridge").join(&pre).join(format!("{r}.h")), &h, "shared header")?;
            check(&p.target.join("cxxbridge").join(&pre).join(format!("{r}.cc")), &c, "shared source")?;
            for (at, want) in [(inc.join(format!("{r}.h")), &h), (src.join(format!("{r}.cc")), &c)] {
                let at = real_out.join(at.strip_prefix(p.out()).unwrap());
                match (before.get(&at), after.get(&at)) {
                    (Some(Node::File(x, _)), y) if x == want.as_bytes() && Some(before.get(&at).unwrap()) != y => return Err(format!("step {step}: {} was up to date and yet written", rel(&at))),
                    _ => {}
                }
            }
        }
        check(&p.out().join("cxxbridge/include/rust/cxx.h"), &header, "rust/cxx.h")?;
        let crate_dir = if pre.is_empty() { p.manifest.clone() } else { p.out().join("cxxbridge/crate") };
        let link = if pre.is_empty() { p.manifest.clone() } else { crate_dir.join(&pre) };
        if link.canonicalize().ok() != p.manifest.canonicalize().ok() {
            return Err(format!("step {step}: {} is not the package directory", rel(&link)));
        }
        // What the compiler is told.
        let stdout = String::from_utf8_lossy(&o.stdout).into_owned();
        let dirs = listed(&stdout, "include_directories: [");
        let want = vec![p.out().join("cxxbridge/include"), crate_dir];
        if dirs.iter().any(|d| d.iter().map(|x| norm(x)).collect::<Vec<_>>() != want) {
            return Err(format!("step {step}: include path {dirs:?}, expected {want:?}"));
        }
        if let Some(l) = stdout.lines().find(|l| l.starts_with("lab:compiler") && *l != "lab:compiler true true") {
            return Err(format!("step {step}: not set up as C++ whose standard library is linked elsewhere: {l}"));
        }
        let built: Vec<PathBuf> = listed(&stdout, "files: [").concat().iter().map(|x| norm(x)).collect();
        let want: Vec<PathBuf> = paths.iter().map(|x| src.join(format!("{}.cc", local(x)))).collect();
        if built != want { return Err(format!("step {step}: compiles {built:?}, expected {want:?}")); }
        last = paths.iter().filter(|x| !x.contains("..")).map(|x| { let (h, c) = expect(&files[x], doxygen); (local(x), h, c, pre.clone()) }).collect();
    }
    // Package and target directory are relocated as one; with a target
    // directory of its own, each alone.
    if kind_of_target == 1 || last.is_empty() || !s.chance(1, 2) { return Ok(()); }
    s.nontrivial();
    let shared = kind_of_target == 0;
    let (from, to) = if shared { (p.target.clone(), root.join("far/away/target")) } else { (root.clone(), root.with_file_name(format!("{}.moved", root.file_name().unwrap().to_str().unwrap()))) };
    fs::create_dir_all(to.parent().unwrap()).map_err(|e| format!("HARNESS: {e}"))?;
    fs::rename(&from, &to).map_err(|e| format!("HARNESS: {e}"))?;
    let r = relocated(&p, &from, &to, shared, &last);
    let back = fs::rename(&to, &from);
    r.map_err(|e| format!("after moving the {}: {e}", if shared { "target directory" } else { "package and its target directory" }))?;
    back.map_err(|e| format!("HARNESS: {e}"))
}

fn relocated(p: &Package, from: &Path, to: &Path, shared: bool, last: &[(String, String, String, String)]) -> Result<(), String> {
    let moved = |at: PathBuf| to.join(at.strip_prefix(from).unwrap());
    for (r, h, c, pre) in last {
        let mut places = vec![(p.out().join("cxxbridge/include").join(pre).join(format!("{r}.h")), h), (p.out().join("cxxbridge/sources").join(pre).join(format!("{r}.cc")), c)];
        if !shared {
            places.push((p.out().join("cxxbridge/include").join(pre).join(r), h));
            places.push((p.target.join("cxxbridge").join(pre).join(format!("{r}.h")), h));
            places.push((p.target.join("cxxbridge").join(pre).join(format!("{r}.cc")), c));
        }
        for (at, want) in places {
            let at = moved(at);
            match fs::read_to_string(&at) {
                Ok(t) if t == *want => {}
                x => return Err(format!("{} is {}", at.strip_prefix(to).unwrap().display(), x.map_or_else(|e| format!("not there: {e}"), |_| "something else".to_owned()))),
            }
        }
        if !pre.is_empty() {
            let link = moved(p.out().join("cxxbridge/crate").join(pre));
            let want = if shared { p.manifest.clone() } else { moved(p.manifest.clone()) };
            if link.canonicalize().ok() != want.canonicalize().ok() { return Err(format!("{} is not the package directory", link.strip_prefix(to).unwrap().display())); }
        }
    }
    Ok(())
}

fn listed(stdout: &str, key: &str) -> Vec<Vec<PathBuf>> {
    stdout.lines().filter_map(|l| l.strip_prefix("lab:")?.strip_prefix(key)).map(|l| l.split('"').skip(1).step_by(2).map(PathBuf::from).collect()).collect()
}

/// Packages depending on each other.
fn graph(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let root = dir.0.clone();
    let n = s.urange(2, 4);
    struct Pk { p: Package, prefix: String, deps: Vec<usize>, exports: Vec<(String, PathBuf)>, told: Vec<(String, String)> }
    let mut pks: Vec<Pk> = Vec::new();
    let mut log = String::new();
    let names = ["aa", "b-b", "c_c", "dd"];
    let abs = root.display().to_string();
    for i in 0..n {
        let mut p = Package::new(&root, names[i]);
        if s.chance(4, 5) { p.links = Some(s.pick(&[names[i].to_owned(), format!("lib{i}"), format!("Lib_{i}")]).clone()); }
        let deps: Vec<usize> = (0..i).filter(|_| s.chance(2, 3)).collect();
        let prefix = if s.chance(1, 2) { names[i].to_owned() } else { s.pick(&[format!("p{i}"), format!("shared/p{i}"), format!("shared/q{i}/deep")]).clone() };
        let t = source(s, i as u32);
        dir.put(&format!("{}/src/lib.rs", names[i]), &t);
        let mut args: Vec<String> = vec![format!("prefix={prefix}")];
        let own: Vec<PathBuf> = if p.links.is_some() { (0..s.weighted(&[3, 2, 1, 1])).map(|k| root.join(format!("{}/inc{k}", names[i]))).chain(if s.chance(1, 8) { (0..12).map(|k| root.join(format!("{}/many{k}", names[i]))).collect() } else { Vec::new() }).collect() } else { Vec::new() };
        for d in &own {
            fs::create_dir_all(d).unwrap();
            args.push(format!("dir={}", d.display()));
        }
        // What is re-exported.
        let visible: Vec<usize> = deps.iter().copied().filter(|d| pks[*d].p.links.is_some()).collect();
        let mut hlinks: Vec<String> = Vec::new();
        let mut hprefixes: Vec<String> = Vec::new();
        if p.links.is_some() {
            for d in &visible {
                match s.below(4) {
                    0 => hlinks.push(pks[*d].p.links.clone().unwrap()),
                    1 => hprefixes.push(s.pick(&[pks[*d].prefix.clone(), pks[*d].prefix.split('/').next().unwrap().to_owned()]).clone()),
                    _ => {}
                }
            }
        }
        for x in &hlinks { args.push(format!("hlink={x}")); }
        for x in &hprefixes { args.push(format!("hprefix={x}")); }
        args.extend(["bridges".to_owned(), "src/lib.rs".to_owned()]);
        // Cargo passes on what direct dependencies with `links` printed.
        let mut env: Vec<(String, String)> = Vec::new();
        for d in &visible {
            let l = pks[*d].p.links.clone().unwrap().to_uppercase().replace('-', "_");
            for (k, v) in &pks[*d].told { env.push((format!("DEP_{l}_{k}"), v.clone())); }
        }
        log += &format!("{} links={:?} deps={:?} {args:?}\n", names[i], p.links, deps).replace(&abs, "$ROOT");
        s.key(log.as_bytes());
        s.note(|| log.clone());
        if !deps.is_empty() { s.nontrivial(); }
        let o = p.run(&env, &args.iter().map(String::as_str).collect::<Vec<_>>());
        if !o.status.success() { return Err(format!("{}: {}", names[i], String::from_utf8_lossy(&o.stderr).replace(&abs, "$ROOT"))); }
        let stdout = String::from_utf8_lossy(&o.stdout).into_owned();
        // Own directories, then those of direct dependencies, each once.
        let mut want: Vec<(PathBuf, bool)> = vec![(p.out().join("cxxbridge/include"), true), (p.out().join("cxxbridge/crate"), true)];
        want.extend(own.iter().map(|d| (d.clone(), true)));
        let fixed = want.len();
        let component = |whole: &str, part: &str| whole == part || whole.starts_with(&format!("{part}/"));
        let mut from_deps: BTreeMap<PathBuf, bool> = BTreeMap::new();
        for d in &visible {
            let exported = hlinks.contains(pks[*d].p.links.as_ref().unwrap()) || hprefixes.iter().any(|x| component(&pks[*d].prefix, x));
            for (_, path) in &pks[*d].exports { *from_deps.entry(path.clone()).or_default() |= exported; }
        }
        let got: Vec<PathBuf> = listed(&stdout, "include_directories: [").concat();
        let rel = |p: &Path| p.display().to_string().replace(&abs, "$ROOT");
        if got.len() != fixed + from_deps.len() || got[..fixed].iter().zip(&want).any(|(a, b)| *a != b.0) {
            return Err(format!("{}: include path {:?}, expected {:?} and then {:?}", names[i], got.iter().map(|p| rel(p)).collect::<Vec<_>>(), want.iter().map(|p| rel(&p.0)).collect::<Vec<_>>(), from_deps.keys().map(|p| rel(p)).collect::<Vec<_>>()));
        }
        for g in &got[fixed..] {
            if !from_deps.contains_key(g) { return Err(format!("{}: {} is on the include path", names[i], rel(g))); }
        }
        // In the order in which each dependency exported them.
        for d in &visible {
            let order: Vec<usize> = pks[*d].exports.iter().filter_map(|(_, p)| got.iter().position(|g| g == p)).collect();
            let own_first = order.windows(2).all(|w| w[0] < w[1]);
            if !own_first && visible.len() == 1 { return Err(format!("{}: the directories of {} come in another order", names[i], names[*d])); }
        }
        let told: Vec<(String, String)> = stdout.lines().filter_map(|l| l.strip_prefix("cargo:")?.split_once('=')).map(|(a, b)| (a.to_owned(), b.to_owned())).collect();
        let exported: BTreeSet<PathBuf> = told.iter().filter(|(k, _)| k.starts_with("CXXBRIDGE_DIR")).map(|(_, v)| PathBuf::from(v)).collect();
        let should: BTreeSet<PathBuf> = want.iter().map(|w| w.0.clone()).chain(from_deps.iter().filter(|x| *x.1).map(|x| x.0.clone())).collect();
        if exported != should {
            return Err(format!("{}: exports {:?}, expected {:?}", names[i], exported.iter().map(|p| rel(p)).collect::<Vec<_>>(), should.iter().map(|p| rel(p)).collect::<Vec<_>>()));
        }
        if !told.contains(&("CXXBRIDGE_PREFIX".to_owned(), prefix.clone())) { return Err(format!("{}: announces another prefix: {told:?}", names[i])); }
        let links = told.iter().find(|(k, _)| k == "CXXBRIDGE_LINKS").map(|x| x.1.clone());
        if links != p.links { return Err(format!("{}: announces links {links:?}", names[i])); }
        // A header of a visible dependency is found under its prefix.
        for d in &visible {
            let h = format!("{}/src/lib.rs.h", pks[*d].prefix);
            if !got.iter().any(|g| g.join(&h).is_file()) { return Err(format!("{}: cannot include {h}", names[i])); }
        }
        let exports: Vec<(String, PathBuf)> = told.iter().filter(|(k, _)| k.starts_with("CXXBRIDGE_DIR")).map(|(k, v)| (k.clone(), PathBuf::from(v))).collect();
        pks.push(Pk { p, prefix, deps, exports, told });
    }
    let _ = pks.iter().map(|p| p.deps.len()).sum::<usize>();
    Ok(())
}

/// The settings are one global variable, as the documentation presents them.
fn settings(s: &mut Src) -> Result<(), String> {
    #[derive(Clone, PartialEq)]
    struct Cfg { p: String, d: Vec<PathBuf>, h: Vec<String>, l: Vec<String>, x: bool }
    let dir = Dir::new();
    let root = dir.0.clone();
    let mut p = Package::new(&root, "pk");
    p.links = Some("pk".to_owned());
    let mut m = Cfg { p: "pk".to_owned(), d: vec![], h: vec![], l: vec![], x: false };
    let mut args = vec!["settings".to_owned()];
    let mut want: Vec<String> = Vec::new();
    let mut files: Vec<(PathBuf, String)> = Vec::new();
    let (mut reads, mut writes) = (0, 0);
    let words = ["", "a", "b/c", "pk", "/x", "é \"q\"", "a"];
    let show = |m: &Cfg| format!("cfg {:?} {:?} {:?} {:?} {}", m.p, m.d, m.h, m.l, m.x);
    for n in 0..s.urange(2, 14) {
        if s.chance(1, 6) && m.h.is_empty() && m.l.is_empty() && m.d.iter().all(|d| d.is_absolute()) && !m.p.starts_with('/') {
            let t = source(s, n as u32);
            let file = format!("src/f{n}.rs");
            dir.put(&format!("pk/{file}"), &t);
            args.push(format!("b={file}"));
            files.push((p.out().join("cxxbridge/include").join(&m.p).join(format!("{file}.h")), expect(&t, m.x).0));
            continue;
        }
        let op = *s.pick(&["p", "p", "p", "d", "h", "l", "D", "H", "L", "M", "x", "-", "-"]);
        let v = if op == "x" { *s.pick(&["0", "1"]) } else { *s.pick(&words) };
        let mut how = op.to_owned();
        if s.coin() { how.push('v'); }
        let (r, after, g) = (s.coin(), s.chance(1, 4), s.chance(1, 6));
        if r { how.push('r'); want.push(show(&m)); reads += 1; }
        let was = m.clone();
        match op {
            "p" => m.p = v.to_owned(),
            "d" => m.d.push(v.into()),
            "h" => m.h.push(v.to_owned()),
            "l" => m.l.insert(0, v.to_owned()),
            "D" => m.d.clear(),
            "H" => { m.h.pop(); }
            "L" => m.l = vec![v.to_owned(), v.to_owned()],
            "M" => m.l.clear(),
            "x" => m.x = v == "1",
            _ => {}
        }
        if was != m { writes += 1; }
        if after { how.push('R'); }
        if r || after { want.push(show(&m)); reads += 1; }
        if g { how.push('g'); want.push("debug".to_owned()); }
        args.push(format!("{}{how}={v}", if s.chance(1, 5) { "t" } else { "" }));
    }
    if reads >= 2 && writes >= 2 { s.nontrivial(); }
    s.key(args.join(" ").as_bytes());
    s.note(|| args.join(" "));
    let o = p.run(&[], &args.iter().map(String::as_str).collect::<Vec<_>>());
    if !o.status.success() { return Err(format!("{}", String::from_utf8_lossy(&o.stderr))); }
    let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("lab:")).map(|l| if l.starts_with("debug ") { "debug".to_owned() } else { l.to_owned() }).collect();
    if got != want {
        let k = got.iter().zip(&want).take_while(|(g, w)| g == w).count();
        return Err(format!("read {k}: {:?}, expected {:?}", got.get(k), want.get(k)));
    }
    for (at, want) in &files {
        match fs::read_to_string(at) {
            Ok(t) if t == *want => {}
            Ok(_) => return Err(format!("{}: other content", at.strip_prefix(&root).unwrap().display())),
            Err(e) => return Err(format!("{}: {e}", at.strip_prefix(&root).unwrap().display())),
        }
    }
    Ok(())
}

/// Configurations that must be refused.
fn invalid(s: &mut Src) -> Result<(), String> {
    let dir = Dir::new();
    let root = dir.0.clone();
    let mut p = Package::new(&root, "pk");
    p.links = Some("pk".to_owned());
    dir.put("pk/src/lib.rs", &source(s, 0));
    let mut env: Vec<(String, String)> = vec![("DEP_ZZ_CXXBRIDGE_PREFIX".into(), "zz/y".into()), ("DEP_ZZ_CXXBRIDGE_LINKS".into(), "zz".into()), ("DEP_ZZ_CXXBRIDGE_DIR0".into(), root.join("zz").display().to_string())];
    let good = ["hlink=zz", "hprefix=zz", "hprefix=zz/y", "dir=/usr/include", "doxygen=1", "prefix=q"];
    let mut args: Vec<String> = good.iter().filter(|_| s.chance(1, 3)).map(|x| (*x).to_owned()).collect();
    let kind = s.us(8);
    let bad: &str = match kind {
        0 => "dir=relative/dir",
        1 => "hprefix=",
        2 => "hlink=nobody",
        3 => "hprefix=zz/y/x",
        4 => "hprefix=z",
        5 => { p.links = None; *s.pick(&["hlink=zz", "hprefix=zz", "dir=/usr/include"]) }
        6 => { env.retain(|e| e.0 != "DEP_ZZ_CXXBRIDGE_LINKS"); "hlink=zz" }
        _ => "bridges",
    };
    let at = s.us(args.len() + 1);
    if kind == 7 {
        fs::write(p.manifest.join("src/lib.rs"), *s.pick(&["fn main() {}", "#[cxx::bridge] mod ffi { struct S {} }", "#[cxx::bridge] mod ffi {", "\u{0}", "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: Q); } }"])).unwrap();
    } else {
        args.insert(at, bad.to_owned());
    }
    if kind == 6 { args.retain(|a| a != "hlink=zz"); args.insert(0, "hlink=zz".to_owned()); }
    args.extend(["bridges".to_owned(), "src/lib.rs".to_owned()]);
    s.nontrivial();
    s.key(format!("{kind} {args:?}").as_bytes());
    s.note(|| format!("{kind}: {args:?} {env:?}"));
    let o = p.run(&env, &args.iter().map(String::as_str).collect::<Vec<_>>());
    let err = String::from_utf8_lossy(&o.stderr);
    match o.status.code() {
        Some(0) => Err(format!("{bad:?} is accepted")),
        Some(1) if err.contains("cxxbridge") && !err.contains("panicked") => {
            let made = p.out().join("cxxbridge/sources");
            if made.exists() { Err("sources were written by a refused build".to_owned()) } else { Ok(()) }
        }
        c => Err(format!("{bad:?}: ended with {c:?}: {err}")),
    }
}
