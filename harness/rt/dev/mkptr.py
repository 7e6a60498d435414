#!/usr/bin/env python3
"""Writes src/ptrs_ffi.rs and cpp/ptrs_gen.{h,cc}: per-type bridge items of the smart pointer labs."""
import os
here = os.path.dirname(os.path.abspath(__file__))
U = [("obj","Obj","Obj"),("ps","PS","PS"),("str","CxxString","std::string"),("vu","CxxVector<u64>","std::vector<std::uint64_t>"),
     ("vp","CxxVector<PS>","std::vector<PS>"),("vs","CxxVector<CxxString>","std::vector<std::string>")]
P = [("bool","bool"),("u8","std::uint8_t"),("u16","std::uint16_t"),("u32","std::uint32_t"),("u64","std::uint64_t"),("usize","std::size_t"),
     ("i8","std::int8_t"),("i16","std::int16_t"),("i32","std::int32_t"),("i64","std::int64_t"),("isize","rust::isize"),("f32","float"),("f64","double")]
S = [("obj","Obj","Obj"),("ps","PS","PS"),("str","CxxString","std::string")] + [(a,a,b) for a,b in P]
def tg(t): return ', 1' if t in ('usize','isize') else ''
def fresh(t):
    if t == 'ps': return 'Some(SharedPtr::new(crate::ptrs::ps(v)))'
    if t in ('obj','str'): return 'None'
    if t == 'bool': return 'Some(SharedPtr::new(v != 0))'
    return f'Some(SharedPtr::new(v as {t}))'
pin = {"Obj","CxxString"}
r = ['//! Generated by dev/mkptr.py.', '#[cxx::bridge(namespace = "lab")]', 'pub mod ffi {',
 '    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]', '    struct PS { a: u64, b: String, pad: u8 }',
 '    unsafe extern "C++" {', '        include!("rt/cpp/ptrs.h");', '        type Obj;', '        fn id(self: &Obj) -> u64;', '        fn hits(self: &Obj) -> u64;',
 '        fn hit(self: Pin<&mut Obj>);', '        fn live_objs() -> u64;', '        fn alias_u64(p: &SharedPtr<PS>, null: bool) -> SharedPtr<u64>;',
 '        fn churn(p: &SharedPtr<Obj>, w: &WeakPtr<Obj>, n: usize) -> bool;',
 '        type Stream;', '        fn new_stream() -> UniquePtr<Stream>;', '        fn note(self: Pin<&mut Stream>, what: &str);', '        fn trace(self: &Stream) -> String;']
h = ['// Generated by dev/mkptr.py.', '#pragma once', 'namespace lab {']
c = ['// Generated by dev/mkptr.py.', '#include "rt/cpp/ptrs_impl.h"', 'namespace lab {']
tail = ['', 'use ffi::*;', 'use cxx::{CxxString, CxxVector, UniquePtr, SharedPtr, WeakPtr};', 'use std::pin::Pin;']
for t,rt,ct in U:
    r += [f'        type ULab_{t};', f'        fn new_ulab_{t}() -> UniquePtr<ULab_{t}>;',
      f'        fn make(self: Pin<&mut ULab_{t}>, v: u64) -> UniquePtr<{rt}>;', f'        fn null(self: Pin<&mut ULab_{t}>) -> UniquePtr<{rt}>;',
      f'        fn raw(self: Pin<&mut ULab_{t}>, v: u64) -> *mut {rt};',
      f'        fn put(self: Pin<&mut ULab_{t}>, i: usize, p: UniquePtr<{rt}>);', f'        fn take(self: Pin<&mut ULab_{t}>, i: usize) -> UniquePtr<{rt}>;',
      f'        fn peek(self: &ULab_{t}, i: usize) -> &UniquePtr<{rt}>;', f'        fn poke(self: Pin<&mut ULab_{t}>, i: usize) -> &mut UniquePtr<{rt}>;',
      f'        fn id(self: &ULab_{t}, i: usize) -> u64;', f'        fn id_of(self: &ULab_{t}, v: &{rt}) -> u64;',
      f'        fn bump_of(self: Pin<&mut ULab_{t}>, v: Pin<&mut {rt}>);' if rt in pin or 'Vector' in rt else f'        fn bump_of(self: Pin<&mut ULab_{t}>, v: &mut {rt});',
      f'        fn addr(self: &ULab_{t}, p: &UniquePtr<{rt}>) -> usize;',
      f'        fn meddle(self: Pin<&mut ULab_{t}>, p: &mut UniquePtr<{rt}>, kind: u32, v: u64);',
      f'        fn pass(self: Pin<&mut ULab_{t}>, p: UniquePtr<{rt}>, kind: u32) -> Result<UniquePtr<{rt}>>;']
    h += [f'class ULab_{t} : public ULab<{ct}> {{}};', f'std::unique_ptr<ULab_{t}> new_ulab_{t}();']
    c += [f'template <> std::unique_ptr<{ct}> URust<{ct}>::round(std::unique_ptr<{ct}> p) {{ return rust_uround_{t}(std::move(p)); }}',
          f'template class ULab<{ct}>;', f'std::unique_ptr<ULab_{t}> new_ulab_{t}() {{ return std::make_unique<ULab_{t}>(); }}']
    q = rt
    arg = 'v' if rt in pin or 'Vector' in rt else 'unsafe { Pin::into_inner_unchecked(v) }'
    tail += [f'pub fn rust_uround_{t}(p: UniquePtr<{q}>) -> UniquePtr<{q}> {{ p }}',
      f'crate::ptrs::impl_ulab!(ULab_{t}, {q}, new_ulab_{t}, |v| {arg}, |v| {"Some(UniquePtr::new(crate::ptrs::ps(v)))" if t=="ps" else "None"});']
for t,rt,ct in S:
    r += [f'        type SLab_{t};', f'        fn new_slab_{t}() -> UniquePtr<SLab_{t}>;',
      f'        fn make(self: Pin<&mut SLab_{t}>, v: u64) -> SharedPtr<{rt}>;', f'        fn null(self: Pin<&mut SLab_{t}>) -> SharedPtr<{rt}>;',
      f'        fn wnull(self: Pin<&mut SLab_{t}>) -> WeakPtr<{rt}>;',
      f'        fn put(self: Pin<&mut SLab_{t}>, i: usize, p: SharedPtr<{rt}>);', f'        fn take(self: Pin<&mut SLab_{t}>, i: usize, copy: bool) -> SharedPtr<{rt}>;',
      f'        fn wput(self: Pin<&mut SLab_{t}>, i: usize, p: WeakPtr<{rt}>);', f'        fn wtake(self: Pin<&mut SLab_{t}>, i: usize, copy: bool) -> WeakPtr<{rt}>;',
      f'        fn peek(self: &SLab_{t}, i: usize) -> &SharedPtr<{rt}>;', f'        fn poke(self: Pin<&mut SLab_{t}>, i: usize) -> &mut SharedPtr<{rt}>;',
      f'        fn wpeek(self: &SLab_{t}, i: usize) -> &WeakPtr<{rt}>;', f'        fn wpoke(self: Pin<&mut SLab_{t}>, i: usize) -> &mut WeakPtr<{rt}>;',
      f'        fn val(self: &SLab_{t}, v: &{rt}) -> u64;',
      f'        fn op(self: Pin<&mut SLab_{t}>, op: u32, i: usize, j: usize);',
      f'        fn addr(self: &SLab_{t}, p: &SharedPtr<{rt}>) -> usize;', f'        fn count(self: &SLab_{t}, p: &SharedPtr<{rt}>) -> i64;', f'        fn wcount(self: &SLab_{t}, p: &WeakPtr<{rt}>) -> i64;']
    h += [f'class SLab_{t} : public SLab<{ct}{tg(t)}> {{}};', f'std::unique_ptr<SLab_{t}> new_slab_{t}();']
    c += [f'template <> std::shared_ptr<{ct}> SRust<{ct}{tg(t)}>::round(std::shared_ptr<{ct}> p) {{ return rust_sround_{t}(std::move(p)); }}',
          f'template <> std::weak_ptr<{ct}> SRust<{ct}{tg(t)}>::down(const std::shared_ptr<{ct}> &p) {{ return rust_down_{t}(p); }}',
          f'template <> std::shared_ptr<{ct}> SRust<{ct}{tg(t)}>::up(std::weak_ptr<{ct}> p) {{ return rust_up_{t}(std::move(p)); }}',
          f'template class SLab<{ct}{tg(t)}>;', f'std::unique_ptr<SLab_{t}> new_slab_{t}() {{ return std::make_unique<SLab_{t}>(); }}']
    tail += [f'pub fn rust_sround_{t}(p: SharedPtr<{rt}>) -> SharedPtr<{rt}> {{ p }}', f'pub fn rust_down_{t}(p: &SharedPtr<{rt}>) -> WeakPtr<{rt}> {{ p.downgrade() }}',
             f'pub fn rust_up_{t}(p: WeakPtr<{rt}>) -> SharedPtr<{rt}> {{ p.upgrade() }}', f'crate::ptrs::impl_slab!(SLab_{t}, {rt}, new_slab_{t}, |v| {fresh(t)});']
r += ['    }', '    extern "Rust" {']
for t,rt,ct in U: r += [f'        fn rust_uround_{t}(p: UniquePtr<{rt}>) -> UniquePtr<{rt}>;']
for t,rt,ct in S: r += [f'        fn rust_sround_{t}(p: SharedPtr<{rt}>) -> SharedPtr<{rt}>;', f'        fn rust_down_{t}(p: &SharedPtr<{rt}>) -> WeakPtr<{rt}>;', f'        fn rust_up_{t}(p: WeakPtr<{rt}>) -> SharedPtr<{rt}>;']
r += ['    }', '}'] + tail
h += ['}']; c += ['}']
open(f'{here}/../src/ptrs_ffi.rs','w').write('\n'.join(r)+'\n')
open(f'{here}/../cpp/ptrs_gen.h','w').write('\n'.join(h)+'\n')
open(f'{here}/../cpp/ptrs_gen.cc','w').write('\n'.join(c)+'\n')
