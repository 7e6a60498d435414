#!/usr/bin/env python3
"""Writes src/cxxstd_ffi.rs and cpp/cxxstd_gen.{h,cc}: per-element-type bridge items of the CxxVector lab."""
import os
here = os.path.dirname(os.path.abspath(__file__))
P = [("u8","std::uint8_t"),("u16","std::uint16_t"),("u32","std::uint32_t"),("u64","std::uint64_t"),("usize","std::size_t"),
     ("i8","std::int8_t"),("i16","std::int16_t"),("i32","std::int32_t"),("i64","std::int64_t"),("isize","rust::isize"),("f32","float"),("f64","double")]
T = [(a,a,b) for a,b in P] + [("str","CxxString","std::string"),("p3","P3","P3"),("p72","P72","P72"),("vs","VS","VS"),("en","En","En"),("tr","Tr","Tr"),("it","It","It"),("odd","Odd","Odd"),("big","Big","Big")]
r = ['//! Generated by dev/mkcv.py.', '#[cxx::bridge(namespace = "lab")]', 'pub mod ffi {',
 '    #[derive(Debug)]', '    struct P3 { a: u8, b: u8, c: u8 }',
 '    #[derive(Debug)]', '    struct P72 { a: u64, b: [u64; 7], c: u8 }',
 '    #[derive(Debug)]', '    struct VS { a: u64, name: String, v: Vec<u16> }',
 '    #[derive(Debug)]', '    #[repr(u16)]', '    enum En { A = 0, B = 1, C = 2, D = 3 }',
 '    unsafe extern "C++" {', '        include!("rt/cpp/cxxstd.h");', '        type Tr = crate::track::Tr;', '        type It;', '        type Odd;', '        type Big;',
 '        fn get(self: &It) -> u64;', '        fn set(self: Pin<&mut It>, v: u64);', '        fn get(self: &Odd) -> u64;', '        fn set(self: Pin<&mut Odd>, v: u64);',
 '        fn get(self: &Big) -> u64;', '        fn set(self: Pin<&mut Big>, v: u64);', '        fn live_items() -> i64;',
 '        fn str_make(b: &[u8]) -> UniquePtr<CxxString>;', '        fn str_bytes(s: &CxxString) -> Vec<u8>;', '        fn str_cap(s: &CxxString) -> usize;', '        fn str_addr(s: &CxxString) -> usize;',
 '        fn str_op(s: Pin<&mut CxxString>, op: u32, n: usize, b: &[u8]);', '        fn str_eq(a: &CxxString, b: &CxxString) -> bool;',
 '        type SOwner;', '        fn new_owner() -> UniquePtr<SOwner>;', '        fn view(self: &SOwner) -> &CxxString;', '        fn edit(self: Pin<&mut SOwner>) -> Pin<&mut CxxString>;',
]
h = ['// Generated by dev/mkcv.py.', '#pragma once', 'namespace lab {']
c = ['// Generated by dev/mkcv.py.', '#include "rt/cpp/cxxstd_impl.h"', 'namespace lab {']
tail = ['use ffi::*;', 'use cxx::CxxString;']
for t,rt,ct in T:
    N = ', 1' if t in ('usize','isize') else ''
    L = f'CLab_{t}'
    r += [f'        type {L};', f'        fn new_clab_{t}() -> UniquePtr<{L}>;',
      f'        fn make(self: Pin<&mut {L}>) -> UniquePtr<CxxVector<{rt}>>;',
      f'        fn own(self: Pin<&mut {L}>) -> Pin<&mut CxxVector<{rt}>>;', f'        fn view(self: &{L}) -> &CxxVector<{rt}>;',
      f'        fn op(self: Pin<&mut {L}>, op: u32, v: Pin<&mut CxxVector<{rt}>>, n: usize, val: u64);',
      f'        fn ids(self: &{L}, v: &CxxVector<{rt}>) -> Vec<u64>;', f'        fn addr(self: &{L}, v: &CxxVector<{rt}>, pos: usize) -> usize;',
      f'        fn cap(self: &{L}, v: &CxxVector<{rt}>) -> usize;',
      f'        fn take_by_value(self: Pin<&mut {L}>, v: UniquePtr<CxxVector<{rt}>>) -> UniquePtr<CxxVector<{rt}>>;']
    h += [f'class {L} : public CLab<{ct}{N}> {{}};', f'std::unique_ptr<{L}> new_clab_{t}();']
    c += [f'template class CLab<{ct}{N}>;', f'std::unique_ptr<{L}> new_clab_{t}() {{ return std::make_unique<{L}>(); }}']
    triv = t not in ('str','it','odd','big')
    dbg = t not in ('it','odd','big','tr')
    tail += [f'crate::cxxstd::impl_clab!({L}, {rt}, new_clab_{t}, {"triv" if triv else "opaque"}, {"dbg" if dbg else "nodbg"});']
r += ['    }', '    impl CxxVector<Tr> {}', '}'] + tail
h += ['}']; c += ['}']
open(f'{here}/../src/cxxstd_ffi.rs','w').write('\n'.join(r)+'\n')
open(f'{here}/../cpp/cxxstd_gen.h','w').write('\n'.join(h)+'\n')
open(f'{here}/../cpp/cxxstd_gen.cc','w').write('\n'.join(c)+'\n')
