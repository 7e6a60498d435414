fn on(f: &str) -> bool {
    std::env::var_os(format!("CARGO_FEATURE_{}", f.to_uppercase())).is_some()
}
// (feature, bridges, C++ files)
const GROUPS: &[(&str, &[&str], &[&str])] = &[
    ("strings", &["src/strings.rs"], &["strings.cc"]),
    ("vecs", &["src/vecs_ffi.rs"], &["vecs.cc", "vecs_gen0.cc", "vecs_gen1.cc", "vecs_gen2.cc", "vecs_gen3.cc", "vecs_gen4.cc", "vecs_gen5.cc"]),
    ("boxes", &["src/boxes_ffi.rs"], &["track.cc", "boxes.cc", "boxes_gen.cc"]),
    ("ptrs", &["src/ptrs_ffi.rs"], &["track.cc", "ptrs.cc", "ptrs_gen.cc"]),
    ("cxxstd", &["src/cxxstd_ffi.rs"], &["track.cc", "cxxstd.cc", "cxxstd_gen.cc"]),
    ("calls", &["src/calls_ffi.rs", "src/calls_tc_ffi.rs"], &["track.cc", "calls.cc", "calls_tc.cc"]),
];
fn main() {
    let groups: Vec<_> = GROUPS.iter().filter(|g| on(g.0)).collect();
    let mut b = cxx_build::bridges(groups.iter().flat_map(|g| g.1.iter()));
    for f in groups.iter().flat_map(|g| g.2.iter()) {
        b.file(format!("cpp/{f}"));
    }
    println!("cargo:rerun-if-changed=cpp");
    b.flag("-std=c++20").flag("-Wno-everything").compile("rtlab");
}
