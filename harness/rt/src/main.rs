#![allow(clippy::all, dead_code)]
mod leak;
#[cfg(feature = "strings")]
mod strings;
#[cfg(feature = "vecs")]
mod vecs;
#[cfg(feature = "vecs")]
mod vecs_ffi;

#[cfg(any(feature = "boxes", feature = "ptrs", feature = "cxxstd", feature = "calls"))]
mod track;
#[cfg(feature = "boxes")]
mod boxes;
#[cfg(feature = "boxes")]
mod boxes_ffi;

#[cfg(feature = "ptrs")]
mod ptrs;
#[cfg(feature = "ptrs")]
mod ptrs_ffi;

#[cfg(feature = "cxxstd")]
mod cxxstd;
#[cfg(feature = "cxxstd")]
mod cxxstd_ffi;

#[cfg(feature = "calls")]
mod calls;
#[cfg(feature = "calls")]
mod calls_ffi;
#[cfg(feature = "calls")]
mod calls_tc_ffi;

use pbt::Entry;

const RT_ASSUME: &[&str] = &[
    "Runs on x86-64 Linux, libstdc++ 13, C++20, clang 18 + rustc nightly-2025-04-08, both under AddressSanitizer.",
];

fn main() {
    leak::install();
    let mut e: Vec<Entry> = Vec::new();
    #[cfg(feature = "strings")]
    e.extend([
        Entry {
            id: "C01",
            rule: "A case is non-trivial when its input contains non-ASCII bytes (bytes), a surrogate unit (utf16), or is one full sweep of the sequences beginning with one lead byte (sweep); distinct by input and constructor.",
            assumptions: RT_ASSUME,
            props: strings::c01(),
        },
        Entry {
            id: "C02",
            rule: "A string history is non-trivial when it executes at least four different kinds of operation; a Str history when it has at least four steps and a non-ASCII text; an ordering case when the two texts differ. Distinct by choice sequence (texts for ordering).",
            assumptions: RT_ASSUME,
            props: strings::c02(),
        },
    ]);
    #[cfg(feature = "vecs")]
    e.extend([
        Entry {
            id: "C03",
            rule: "A history is non-trivial when it executes at least five (opaque: four) different kinds of operation; distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: vecs::c03(),
        },
        Entry {
            id: "C04",
            rule: "A case is non-trivial when it probes a span of at least two elements with at least three iterator steps; distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: vecs::c04(),
        },
    ]);
    #[cfg(feature = "boxes")]
    e.extend([Entry {
        id: "C05",
        rule: "A history is non-trivial when it executes at least five different kinds of operation (struct_fields: at least three round trips); distinct by choice sequence.",
        assumptions: RT_ASSUME,
        props: boxes::c05(),
    }]);
    #[cfg(feature = "ptrs")]
    e.extend([
        Entry {
            id: "C08",
            rule: "A history is non-trivial when it executes at least six different kinds of operation, a traits case when both pointers are non-null, an I/O case when at least three calls are forwarded; distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: ptrs::c08(),
        },
        Entry {
            id: "C09",
            rule: "A history is non-trivial when it executes at least six different kinds of operation; aliasing and thread cases always; a traits case when both pointers are non-null or the targets are floats. Distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: ptrs::c09(),
        },
    ]);
    #[cfg(feature = "cxxstd")]
    e.extend([
        Entry {
            id: "C06",
            rule: "A content case is non-trivial when the bytes are not ASCII, an order case when the two strings differ, a history when it executes at least four kinds of operation, a stack-string case when its initialiser is more than a plain value. Distinct by content (content, order) or choice sequence.",
            assumptions: RT_ASSUME,
            props: cxxstd::c06(),
        },
        Entry {
            id: "C07",
            rule: "A history is non-trivial when it executes at least five different kinds of operation; distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: cxxstd::c07(),
        },
    ]);
    #[cfg(feature = "calls")]
    e.extend([
        Entry {
            id: "C10",
            rule: "A call program is non-trivial when a call in it crosses languages and it fails or has at least three frames; a message case when a text is not ASCII; an error history when it executes at least five kinds of operation. Distinct by choice sequence (texts for messages).",
            assumptions: RT_ASSUME,
            props: calls::c10(),
        },
        Entry {
            id: "C11",
            rule: "A case is non-trivial when a Rust panic occurs; distinct by entry point shape, panic mode, nesting depth and calling context.",
            assumptions: RT_ASSUME,
            props: calls::c11(),
        },
        Entry {
            id: "C26",
            rule: "A history is non-trivial when it makes at least three calls and copies or moves a function object; distinct by choice sequence.",
            assumptions: RT_ASSUME,
            props: calls::c26(),
        },
    ]);
    pbt::main_with(e)
}
