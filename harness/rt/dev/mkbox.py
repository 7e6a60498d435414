#!/usr/bin/env python3
"""Writes src/boxes_ffi.rs and cpp/boxes_gen.{h,cc}: the per-type bridge items of the Box lab."""
import os
here = os.path.dirname(os.path.abspath(__file__))
T = ["R", "Z", "Al", "S"]
r = ['//! Generated by dev/mkbox.py.', 'use crate::boxes::{R, Z, Al};', '#[cxx::bridge(namespace = "lab")]', 'pub mod ffi {',
 '    struct S { val: u64, t: Tr, name: String }', '    struct Hold { b: Box<R>, s: Box<S>, n: u8 }',
 '    unsafe extern "C++" {', '        include!("rt/cpp/boxes.h");', '        type Tr = crate::track::Tr;',
 '        fn arm_copy(n: i64);',
 '        fn hold_round(h: Hold, bump: bool) -> Hold;']
for t in T:
    L = f'BLab{t}'
    r += [f'        type {L};', f'        fn new_blab_{t}() -> UniquePtr<{L}>;',
     f'        fn op(self: Pin<&mut {L}>, op: u32, i: usize, j: usize, val: u64) -> i32;',
     f'        fn put(self: Pin<&mut {L}>, b: Box<{t}>);',
     f'        fn take(self: Pin<&mut {L}>, i: usize) -> Box<{t}>;',
     f'        fn peek(self: &{L}, i: usize) -> &{t};',
     f'        fn poke(self: Pin<&mut {L}>, i: usize) -> &mut {t};',
     f'        fn peek_box(self: &{L}, i: usize) -> &Box<{t}>;',
     f'        fn poke_box(self: Pin<&mut {L}>, i: usize) -> &mut Box<{t}>;',
     f'        fn id(self: &{L}, i: usize) -> u64;']
r += ['    }', '    extern "Rust" {', '        type R;', '        type Z;', '        type Al;']
for t in T:
    r += [f'        fn obj_id(self: &{t}) -> u64;', f'        fn obj_bump(self: &mut {t});',
          f'        fn rust_round_{t}(b: Box<{t}>) -> Box<{t}>;', f'        fn rust_fail_{t}(b: Box<{t}>) -> Result<Box<{t}>>;',
          f'        fn rust_replace_{t}(b: &mut Box<{t}>, val: u64);', f'        fn rust_read_{t}(b: &Box<{t}>) -> u64;']
r += ['    }', '}', '', 'use ffi::S;']
h = ['// Generated by dev/mkbox.py.', '#pragma once', 'namespace lab {']
c = ['// Generated by dev/mkbox.py.', '#include "rt/cpp/boxes_impl.h"', 'namespace lab {']
for t in T:
    r += [f'pub fn rust_round_{t}(b: Box<{t}>) -> Box<{t}> {{ b }}', f'pub fn rust_fail_{t}(b: Box<{t}>) -> Result<Box<{t}>, String> {{ drop(b); Err("no".into()) }}',
          f'pub fn rust_replace_{t}(b: &mut Box<{t}>, val: u64) {{ *b = Box::new(crate::boxes::Ob::mk(val)) }}', f'pub fn rust_read_{t}(b: &Box<{t}>) -> u64 {{ b.obj_id() }}',
          f'crate::boxes::impl_blab!(ffi::BLab{t}, {t}, ffi::new_blab_{t});', '']
    h += [f'class BLab{t} : public BLab<{t}> {{}};', f'std::unique_ptr<BLab{t}> new_blab_{t}();']
    c += [f'template <> struct BoxRust<{t}> {{',
          f'  static rust::Box<{t}> round(rust::Box<{t}> b) {{ return rust_round_{t}(std::move(b)); }}',
          f'  static rust::Box<{t}> fail(rust::Box<{t}> b) {{ return rust_fail_{t}(std::move(b)); }}',
          f'  static void replace(rust::Box<{t}> &b, std::uint64_t v) {{ rust_replace_{t}(b, v); }}',
          f'  static std::uint64_t read(const rust::Box<{t}> &b) {{ return rust_read_{t}(b); }}',
          '};', f'template class BLab<{t}>;', f'std::unique_ptr<BLab{t}> new_blab_{t}() {{ return std::make_unique<BLab{t}>(); }}']
h += ['}']; c += ['}']
open(f'{here}/../src/boxes_ffi.rs','w').write('\n'.join(r)+'\n')
open(f'{here}/../cpp/boxes_gen.h','w').write('\n'.join(h)+'\n')
open(f'{here}/../cpp/boxes_gen.cc','w').write('\n'.join(c)+'\n')
