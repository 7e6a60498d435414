//! C01 and C02: rust::String and rust::Str.
use crate::leak::balanced;
use pbt::{gen_bytes, gen_text, gen_u16s, Outcome, Prop, Src};
use std::pin::Pin;

#[cxx::bridge(namespace = "lab")]
mod ffi {
    extern "Rust" {
        fn rust_str_to_vec(s: &str) -> Vec<u8>;
        fn rust_string_ref_to_vec(s: &String) -> Vec<u8>;
        fn rust_string_identity(s: String) -> String;
        fn rust_str_identity(s: &str) -> &str;
        fn rust_append(s: &mut String, t: &str);
    }
    unsafe extern "C++" {
        include!("rt/cpp/strings.h");
        fn make8(kind: u32, data: &[u8], out: &mut String) -> i32;
        fn make16(kind: u32, data: &[u16], out: &mut String) -> i32;

        type StrLab;
        fn new_str_lab() -> UniquePtr<StrLab>;
        fn op(self: Pin<&mut StrLab>, op: u32, i: usize, j: usize, n: usize, text: &str) -> i32;
        fn has(self: &StrLab, i: usize) -> bool;
        fn contents(self: Pin<&mut StrLab>, i: usize) -> Vec<u8>;
        fn observe(self: &StrLab, i: usize) -> String;
        fn compare(self: &StrLab, i: usize, j: usize) -> u32;
        fn slot(self: Pin<&mut StrLab>, i: usize) -> &mut String;
        fn cslot(self: &StrLab, i: usize) -> & String;
        fn as_str(self: &StrLab, i: usize) -> & str;
        fn put(self: Pin<&mut StrLab>, i: usize, s: String);
        fn take(self: Pin<&mut StrLab>, i: usize) -> String;

        fn str_op(self: Pin<&mut StrLab>, op: u32, i: usize, j: usize, text: &str) -> i32;
        fn str_contents(self: &StrLab, i: usize) -> Vec<u8>;
        fn str_observe(self: &StrLab, i: usize) -> String;
        fn str_compare(self: &StrLab, i: usize, j: usize) -> u32;
        fn str_get(self: &StrLab, i: usize) -> & str;
    }
}

fn rust_str_to_vec(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn rust_string_ref_to_vec(s: &String) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn rust_string_identity(s: String) -> String {
    s
}
fn rust_str_identity(s: &str) -> &str {
    s
}
fn rust_append(s: &mut String, t: &str) {
    s.push_str(t);
}

const OK: i32 = 0;
const INVALID: i32 = 1;

/// 0 String(std::string) 1 String(cstr) 2 String(ptr,len) 3 String(char8_t*) 4 String(char8_t*,len)
/// 5 lossy(std::string) 6 lossy(cstr) 7 lossy(ptr,len)
/// 8 Str(std::string) 9 Str(cstr) 10 Str(ptr,len) 11 String(nullptr,0) 12 lossy(nullptr,0) 13 Str(nullptr,0)
fn check8(kind: u32, data: &[u8]) -> Outcome {
    let nul = matches!(kind, 1 | 3 | 6 | 9);
    let null = matches!(kind, 11..=13);
    let eff: &[u8] = if null {
        &[]
    } else if nul {
        &data[..data.iter().position(|b| *b == 0).unwrap_or(data.len())]
    } else {
        data
    };
    let mut out = String::from("untouched");
    let rc = ffi::make8(kind, data, &mut out);
    let lossy = matches!(kind, 5..=7 | 12);
    let expect: Result<String, ()> = if lossy {
        Ok(String::from_utf8_lossy(eff).into_owned())
    } else {
        std::str::from_utf8(eff).map(str::to_owned).map_err(|_| ())
    };
    judge(rc, &out, expect, || format!("kind {kind} bytes {eff:02x?}"))
}

fn judge(rc: i32, out: &str, expect: Result<String, ()>, what: impl Fn() -> String) -> Outcome {
    match (rc, expect) {
        (OK, Ok(e)) => {
            if out.as_bytes() != e.as_bytes() {
                return Err(format!("{}: got {:02x?}, expected {:02x?}", what(), out.as_bytes(), e.as_bytes()));
            }
            if std::str::from_utf8(out.as_bytes()).is_err() {
                return Err(format!("{}: produced invalid UTF-8", what()));
            }
            Ok(())
        }
        (INVALID, Err(())) => {
            if out == "untouched" { Ok(()) } else { Err(format!("{}: failed but wrote a value", what())) }
        }
        (rc, e) => Err(format!("{}: result code {rc}, expected {}", what(), if e.is_ok() { "success" } else { "invalid_argument" })),
    }
}

fn bytes_case(s: &mut Src) -> Outcome {
    let kind = s.below(14) as u32;
    let data = gen_bytes(s, 60);
    s.note(|| format!("kind {kind} bytes {data:02x?}"));
    if data.iter().any(|b| *b >= 0x80) && kind < 11 {
        s.nontrivial();
        s.key(&data);
        s.key(&[kind as u8]);
    }
    check8(kind, &data)
}

fn check16(kind: u32, data: &[u16]) -> Outcome {
    // 0 String(char16_t*) 1 String(char16_t*,len) 2 lossy(char16_t*) 3 lossy(char16_t*,len) 4 String(nullptr,0) 5 lossy(nullptr,0)
    let eff: &[u16] = match kind {
        0 | 2 => &data[..data.iter().position(|b| *b == 0).unwrap_or(data.len())],
        1 | 3 => data,
        _ => &[],
    };
    let mut out = String::from("untouched");
    let rc = ffi::make16(kind, data, &mut out);
    let expect = if matches!(kind, 2 | 3 | 5) { Ok(String::from_utf16_lossy(eff)) } else { String::from_utf16(eff).map_err(|_| ()) };
    judge(rc, &out, expect, || format!("utf16 kind {kind} units {eff:04x?}"))
}

fn utf16_case(s: &mut Src) -> Outcome {
    let kind = s.below(6) as u32;
    let data = gen_u16s(s, 40);
    s.note(|| format!("kind {kind} units {data:04x?}"));
    if data.iter().any(|u| (0xd800..0xe000).contains(u)) && kind < 4 {
        s.nontrivial();
        for u in &data { s.key(&u.to_le_bytes()); }
        s.key(&[kind as u8]);
    }
    check16(kind, &data)
}

/// All sequences of one and two bytes, and of three/four bytes over the
/// boundary values, for each lead byte; all single units and surrogate pairs
/// on the boundary for UTF-16.
fn sweep(s: &mut Src) -> Outcome {
    let lead = s.indexed(256) as u8;
    let edge = [0x00u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    s.note(|| format!("sweep lead byte {lead:02x}"));
    s.nontrivial();
    s.key(&[lead]);
    for kind in [2u32, 7, 10] {
        check8(kind, &[lead])?;
        for a in 0..=255u8 {
            check8(kind, &[lead, a])?;
        }
        for a in edge {
            for b in edge {
                check8(kind, &[lead, a, b])?;
                for c in edge {
                    check8(kind, &[lead, a, b, c])?;
                }
            }
        }
    }
    for lo in 0..=255u16 {
        let u = (u16::from(lead) << 8) | lo;
        for kind in [1u32, 3] {
            check16(kind, &[u])?;
            check16(kind, &[u, 0xdc00])?;
            check16(kind, &[0xd800, u])?;
            check16(kind, &[u, 0x61])?;
        }
    }
    Ok(())
}

pub fn c01() -> Vec<Prop> {
    vec![
        Prop { name: "bytes", quick: 400_000, thorough: 3_000_000, f: |s| balanced(s, bytes_case) },
        Prop { name: "utf16", quick: 200_000, thorough: 1_500_000, f: |s| balanced(s, utf16_case) },
        Prop { name: "sweep", quick: 256, thorough: 256, f: |s| balanced(s, sweep) },
    ]
}

// ---------------------------------------------------------------- C02

const SLOTS: usize = 4;

fn cmp_bits<T: PartialOrd + ?Sized>(a: &T, b: &T) -> u32 {
    u32::from(a == b) | u32::from(a != b) << 1 | u32::from(a < b) << 2 | u32::from(a <= b) << 3 | u32::from(a > b) << 4 | u32::from(a >= b) << 5
}

fn check_slots(lab: &mut cxx::UniquePtr<ffi::StrLab>, model: &mut [Option<String>], unspecified: &mut [bool], pairs: bool, after: &str) -> Outcome {
    for i in 0..SLOTS {
        let has = lab.has(i);
        if has != model[i].is_some() {
            return Err(format!("after {after}: harness slot mismatch {i}"));
        }
        if !has { continue; }
        let got = lab.pin_mut().contents(i);
        if unspecified[i] {
            // Moved-from: valid but unspecified contents; adopt them.
            match String::from_utf8(got.clone()) {
                Ok(t) => model[i] = Some(t),
                Err(_) => return Err(format!("after {after}: moved-from string {i} is not valid UTF-8")),
            }
            unspecified[i] = false;
        }
        let m = model[i].as_ref().unwrap();
        if got != m.as_bytes() {
            return Err(format!("after {after}: slot {i} holds {:?}, model {:?}", String::from_utf8_lossy(&got), m));
        }
        let o = lab.observe(i);
        if !o.is_empty() {
            return Err(format!("after {after}: slot {i}: {o}"));
        }
        if lab.cslot(i).as_str() != m || lab.as_str(i) != m.as_str() {
            return Err(format!("after {after}: slot {i} differs when read from Rust"));
        }
        if lab.cslot(i).capacity() < m.len() {
            return Err(format!("after {after}: slot {i} capacity too small"));
        }
    }
    if pairs {
        for i in 0..SLOTS {
            for j in 0..SLOTS {
                if let (Some(a), Some(b)) = (&model[i], &model[j]) {
                    let got = lab.compare(i, j);
                    let want = cmp_bits(a.as_str(), b.as_str());
                    if got != want {
                        return Err(format!("after {after}: comparing {a:?} with {b:?}: == != < <= > >= bits {got:06b}, Rust says {want:06b}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn string_history(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_str_lab();
    let mut model: Vec<Option<String>> = vec![None; SLOTS];
    let mut unspec = vec![false; SLOTS];
    let steps = s.us(40);
    let mut kinds = 0u32;
    for _ in 0..steps {
        let mut op = s.below(22) as u32;
        let mut i = s.us(SLOTS);
        let j = s.us(SLOTS);
        let has = |k: usize, m: &Vec<Option<String>>| m[k].is_some();
        // Skip operations whose operands do not exist.
        let needs_i = matches!(op, 5..=13 | 15 | 16 | 18 | 19 | 20 | 21);
        let needs_j = matches!(op, 3..=8 | 19 | 20);
        if (needs_i && !has(i, &model)) || (needs_j && !has(j, &model)) {
            if has(i, &model) || !needs_i { i = j; }
            op = 14;
        }
        let text = if matches!(op, 0..=2 | 14..=17 | 19) { gen_text(s, 40) } else { String::new() };
        let n = if matches!(op, 9) { s.size(200) } else { 0 };
        if matches!(op, 4) && i == j { continue; }
        kinds |= 1 << op;
        s.note(|| format!("op {op} i={i} j={j} n={n} text={text:?}"));
        match op {
            // 0 from std::string, 1 from cstr (no NUL), 2 default-construct then assign
            0..=2 => {
                let t = if op == 1 { text.replace('\0', "x") } else { text.clone() };
                expect_ok(lab.pin_mut().op(op, i, j, n, &t))?;
                model[i] = Some(t);
            }
            3 => { // copy construct i from j
                expect_ok(lab.pin_mut().op(3, i, j, n, ""))?;
                model[i] = model[j].clone();
            }
            4 => { // move construct i from j
                expect_ok(lab.pin_mut().op(4, i, j, n, ""))?;
                model[i] = model[j].clone();
                unspec[j] = true;
            }
            5 => { // copy assign (self allowed)
                expect_ok(lab.pin_mut().op(5, i, j, n, ""))?;
                model[i] = model[j].clone();
            }
            6 => { // move assign
                expect_ok(lab.pin_mut().op(6, i, j, n, ""))?;
                if i == j { unspec[i] = true; } else {
                    model[i] = model[j].clone();
                    unspec[j] = true;
                }
            }
            7 | 8 => { // member swap, ADL swap
                expect_ok(lab.pin_mut().op(op, i, j, n, ""))?;
                model.swap(i, j);
            }
            9 => { // reserve; op checks capacity() >= n
                expect_ok(lab.pin_mut().op(9, i, j, n, ""))?;
                if lab.cslot(i).capacity() < n {
                    return Err(format!("reserve({n}) left capacity {}", lab.cslot(i).capacity()));
                }
            }
            10 => expect_ok(lab.pin_mut().op(10, i, j, n, ""))?, // c_str checks
            11 => { // destroy
                expect_ok(lab.pin_mut().op(11, i, j, n, ""))?;
                model[i] = None;
            }
            12 => { // mutate ASCII through begin()/end()
                expect_ok(lab.pin_mut().op(12, i, j, n, ""))?;
                let m = model[i].as_mut().unwrap();
                *m = m.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c }).collect();
            }
            13 => { // destroy through std::move into a temporary
                expect_ok(lab.pin_mut().op(13, i, j, n, ""))?;
                unspec[i] = true;
            }
            14 => { // Rust gives a String by value
                let mut t = text.clone();
                if n % 2 == 0 { t.reserve(7); }
                lab.pin_mut().put(i, t);
                model[i] = Some(text.clone());
            }
            15 => { // Rust appends through &mut String
                lab.pin_mut().slot(i).push_str(&text);
                model[i].as_mut().unwrap().push_str(&text);
            }
            16 => { // C++ asks Rust to append
                expect_ok(lab.pin_mut().op(16, i, j, n, &text))?;
                model[i].as_mut().unwrap().push_str(&text);
            }
            17 => { // assign from a temporary of the given text
                if model[i].is_none() { continue; }
                expect_ok(lab.pin_mut().op(17, i, j, n, &text))?;
                model[i] = Some(text.clone());
            }
            18 => { // Rust takes it by value
                let t = lab.pin_mut().take(i);
                if Some(&t) != model[i].as_ref() {
                    return Err(format!("take: got {t:?}, model {:?}", model[i]));
                }
                unspec[i] = true;
            }
            19 => { // Rust mutates one slot in place from another's contents
                let o = lab.cslot(j).clone();
                let st = lab.pin_mut().slot(i);
                st.clear();
                st.push_str(&text);
                st.insert_str(0, &o);
                model[i] = Some(format!("{}{}", model[j].as_ref().unwrap(), text));
            }
            20 => { // identity through Rust by value (copy of j)
                expect_ok(lab.pin_mut().op(20, i, j, n, ""))?;
                model[i] = model[j].clone();
            }
            _ => { // shrink_to_fit from Rust, then observe
                lab.pin_mut().slot(i).shrink_to_fit();
            }
        }
        let pairs = s.chance(1, 3);
        check_slots(&mut lab, &mut model, &mut unspec, pairs, &format!("op {op}(i={i}, j={j}, n={n}, {text:?})"))?;
    }
    if kinds.count_ones() >= 4 { s.nontrivial(); }
    check_slots(&mut lab, &mut model, &mut unspec, true, "the end")
}

fn expect_ok(rc: i32) -> Outcome {
    match rc {
        OK => Ok(()),
        4 => Err("C++ side check failed (size/capacity/c_str/iterator expectation)".into()),
        n => Err(format!("unexpected exception, code {n}")),
    }
}

fn str_history(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_str_lab();
    let mut model: Vec<String> = vec![String::new(); SLOTS];
    let steps = s.us(30);
    let mut n_nonascii = 0;
    for _ in 0..steps {
        let op = s.below(8) as u32;
        let i = s.us(SLOTS);
        let j = s.us(SLOTS);
        let text = if op < 4 { gen_text(s, 30) } else { String::new() };
        if !text.is_ascii() { n_nonascii += 1; }
        s.note(|| format!("str op {op} i={i} j={j} text={text:?}"));
        // 0 Str(std::string) 1 Str(ptr,len) 2 Str(String) 3 prefix view of the text 4 copy 5 assign 6 swap 7 default
        let t = match op {
            3 => {
                // A prefix ending on a char boundary: data not followed by NUL.
                let k = text.char_indices().map(|(k, _)| k).nth(text.chars().count() / 2).unwrap_or(0);
                text[..k].to_owned()
            }
            _ => text.clone(),
        };
        expect_ok(lab.pin_mut().str_op(op, i, j, if op == 3 { &t } else { &text }))?;
        match op {
            0..=3 => model[i] = t,
            4 | 5 => model[i] = model[j].clone(),
            6 => model.swap(i, j),
            _ => model[i] = String::new(),
        }
        for k in 0..SLOTS {
            let got = lab.str_contents(k);
            if got != model[k].as_bytes() {
                return Err(format!("after str op {op}: Str {k} is {:?}, model {:?}", String::from_utf8_lossy(&got), model[k]));
            }
            if lab.str_get(k) != model[k] {
                return Err(format!("after str op {op}: Str {k} differs when returned to Rust"));
            }
            let o = lab.str_observe(k);
            if !o.is_empty() {
                return Err(format!("after str op {op}: Str {k}: {o}"));
            }
        }
        for a in 0..SLOTS {
            let got = lab.str_compare(i, a);
            let want = cmp_bits(model[i].as_str(), model[a].as_str());
            if got != want {
                return Err(format!("comparing Str {:?} with {:?}: == != < <= > >= bits {got:06b}, Rust says {want:06b}", model[i], model[a]));
            }
        }
    }
    if steps >= 4 && n_nonascii > 0 { s.nontrivial(); }
    Ok(())
}

/// Related texts (shared prefixes, one differing char) compared every way.
fn order_case(s: &mut Src) -> Outcome {
    let mut lab = ffi::new_str_lab();
    let a = gen_text(s, 20);
    let mut b = a.clone();
    match s.below(4) {
        0 => b.push(pbt::gen_char(s)),
        1 => {
            let n = b.chars().count();
            if n > 0 {
                let k = s.us(n);
                let c = pbt::gen_char(s);
                b = b.chars().enumerate().map(|(i, x)| if i == k { c } else { x }).collect();
            }
        }
        2 => { b.pop(); }
        _ => {}
    }
    s.note(|| format!("{a:?} vs {b:?}"));
    if a != b { s.nontrivial(); s.key(a.as_bytes()); s.key(b.as_bytes()); }
    let mut l: Pin<&mut ffi::StrLab> = lab.pin_mut();
    l.as_mut().put(0, a.clone());
    l.as_mut().put(1, b.clone());
    expect_ok(l.as_mut().str_op(1, 0, 0, &a))?;
    expect_ok(l.as_mut().str_op(1, 1, 0, &b))?;
    for (x, y, mx, my) in [(0, 1, &a, &b), (1, 0, &b, &a), (0, 0, &a, &a)] {
        let want = cmp_bits(mx.as_str(), my.as_str());
        for (kind, got) in [("String", l.compare(x, y)), ("Str", l.str_compare(x, y))] {
            if got != want {
                return Err(format!("{kind} comparison of {mx:?} with {my:?}: == != < <= > >= bits {got:06b}, Rust says {want:06b}"));
            }
        }
    }
    Ok(())
}

pub fn c02() -> Vec<Prop> {
    vec![
        Prop { name: "string_history", quick: 80_000, thorough: 400_000, f: |s| balanced(s, string_history) },
        Prop { name: "str_history", quick: 60_000, thorough: 300_000, f: |s| balanced(s, str_history) },
        Prop { name: "order", quick: 200_000, thorough: 1_000_000, f: |s| balanced(s, order_case) },
    ]
}
