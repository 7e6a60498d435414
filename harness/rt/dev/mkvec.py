#!/usr/bin/env python3
"""Writes src/vecs_ffi.rs and cpp/vecs_gen.h: the per-element-type bridge items of the Vec/Slice labs."""
import os
here = os.path.dirname(os.path.abspath(__file__))
T = [  # tag, rust type, C++ type
 ("u8","u8","std::uint8_t"),("u16","u16","std::uint16_t"),("u32","u32","std::uint32_t"),("u64","u64","std::uint64_t"),
 ("us","usize","std::size_t"),("i8","i8","std::int8_t"),("i16","i16","std::int16_t"),("i32","i32","std::int32_t"),
 ("i64","i64","std::int64_t"),("iz","isize","rust::isize"),("f32","f32","float"),("f64","f64","double"),("bo","bool","bool"),
 ("st","String","rust::String"),("pod","Pod","Pod"),("el","Elem","Elem"),("th","Th","Th"),
]
r = ['//! Generated by dev/mkvec.py.', '#[cxx::bridge(namespace = "lab")]', 'pub mod ffi {',
 '    #[derive(Clone, Copy, Debug, PartialEq)]','    struct Pod { a: u8, b: u32, c: u16 }',
 '    #[derive(Clone, Debug, PartialEq)]','    struct Elem { id: u64, name: String, more: Vec<u16> }',
 '    struct Th { id: u64, t: Thrower }',
 '    unsafe extern "C++" {','        include!("rt/cpp/vecs.h");','        type Thrower = crate::vecs::Thrower;','        fn arm_throw(n: i64);']
for t,rt,ct in T:
    L=f"VLab_{t}"
    r += [f'        type {L};', f'        fn new_{t}() -> UniquePtr<{L}>;',
     f'        fn op(self: Pin<&mut {L}>, op: u32, i: usize, j: usize, n: usize, val: u64) -> i32;',
     f'        fn ids(self: &{L}, i: usize) -> Vec<u64>;',
     f'        fn observe(self: &{L}, i: usize) -> String;',
     f'        fn get(self: &{L}, i: usize) -> &Vec<{rt}>;',
     f'        fn vec_mut(self: Pin<&mut {L}>, i: usize) -> &mut Vec<{rt}>;',
     f'        fn put(self: Pin<&mut {L}>, i: usize, v: Vec<{rt}>);',
     f'        fn take(self: Pin<&mut {L}>, i: usize) -> Vec<{rt}>;',
     f'        fn slice(self: &{L}, i: usize, from: usize, to: usize) -> &[{rt}];',
     f'        fn slice_mut(self: Pin<&mut {L}>, i: usize, from: usize, to: usize) -> &mut [{rt}];',
     f'        fn probe(self: &{L}, s: &[{rt}], prog: &[u8]) -> String;',
     f'        fn scribble(self: Pin<&mut {L}>, s: &mut [{rt}], base: u64);']
r += ['        type OLab;','        fn new_opq() -> UniquePtr<OLab>;',
 '        fn op(self: Pin<&mut OLab>, op: u32, i: usize, j: usize, n: usize) -> i32;',
 '        fn put(self: Pin<&mut OLab>, i: usize, v: Vec<Opq>);','        fn take(self: Pin<&mut OLab>, i: usize) -> Vec<Opq>;',
 '        fn get(self: &OLab, i: usize) -> &Vec<Opq>;','        fn vec_mut(self: Pin<&mut OLab>, i: usize) -> &mut Vec<Opq>;',
 '        fn ids(self: &OLab, i: usize) -> Vec<u64>;','        fn observe(self: &OLab, i: usize) -> String;',
 '        fn probe(self: &OLab, s: &[Opq], prog: &[u8]) -> String;',
 '        fn slice(self: &OLab, i: usize) -> &[Opq];',
 '        fn bump(self: Pin<&mut OLab>, s: &mut [Opq]);',
 '    }','    extern "Rust" {','        type Opq;','        fn opq_id(self: &Opq) -> u64;','        fn opq_bump(self: &mut Opq);',
 '        fn rust_opq_vec_id(v: Vec<Opq>) -> Vec<Opq>;','        fn rust_opq_push(v: &mut Vec<Opq>, val: u64);',
 '        fn rust_opq_slice_ids(s: &[Opq]) -> Vec<u64>;','        fn rust_opq_subslice(s: &[Opq], from: usize, to: usize) -> &[Opq];']
for t,rt,ct in T:
    r += [f'        fn rust_push_{t}(v: &mut Vec<{rt}>, val: u64);', f'        fn rust_vec_id_{t}(v: Vec<{rt}>) -> Vec<{rt}>;',
          f'        fn rust_slice_ids_{t}(s: &[{rt}]) -> Vec<u64>;', f'        fn rust_subslice_{t}(s: &[{rt}], from: usize, to: usize) -> &[{rt}];',
          f'        fn rust_scribble_{t}(s: &mut [{rt}], base: u64);']
r += ['    }','}','','use crate::vecs::{El, Opq};',
 'pub fn rust_opq_vec_id(v: Vec<Opq>) -> Vec<Opq> { v }','pub fn rust_opq_push(v: &mut Vec<Opq>, val: u64) { v.push(Opq::new(val)) }',
 'pub fn rust_opq_slice_ids(s: &[Opq]) -> Vec<u64> { s.iter().map(|o| o.opq_id()).collect() }',
 'pub fn rust_opq_subslice(s: &[Opq], from: usize, to: usize) -> &[Opq] { &s[from..to] }','']
h = ['// Generated by dev/mkvec.py.','#pragma once','namespace lab {']
c = ['// Generated by dev/mkvec.py.','#include "rt/cpp/vecs_impl.h"','namespace lab {']
for t,rt,ct in T:
    q = rt if rt not in ("Pod","Elem","Th") else f'ffi::{rt}'
    r += [f'pub fn rust_push_{t}(v: &mut Vec<{q}>, val: u64) {{ v.push(<{q} as El>::mk(val)) }}'.replace('ffi::','self::ffi::'),
          f'pub fn rust_vec_id_{t}(v: Vec<{q}>) -> Vec<{q}> {{ v }}',
          f'pub fn rust_slice_ids_{t}(s: &[{q}]) -> Vec<u64> {{ s.iter().map(El::id).collect() }}',
          f'pub fn rust_subslice_{t}(s: &[{q}], from: usize, to: usize) -> &[{q}] {{ &s[from..to] }}',
          f'pub fn rust_scribble_{t}(s: &mut [{q}], base: u64) {{ for (k, e) in s.iter_mut().enumerate() {{ *e = El::mk(base + k as u64) }} }}',
          f'crate::vecs::impl_lab!(ffi::VLab_{t}, {q}, ffi::new_{t});','']
    h += [f'class VLab_{t} : public VLab<{ct}> {{}};', f'std::unique_ptr<VLab_{t}> new_{t}();']
    c += [f'template <> struct RustSide<{ct}> {{',
          f'  static void push(rust::Vec<{ct}> &v, std::uint64_t x) {{ rust_push_{t}(v, x); }}',
          f'  static rust::Vec<{ct}> id(rust::Vec<{ct}> v) {{ return rust_vec_id_{t}(std::move(v)); }}',
          f'  static rust::Vec<std::uint64_t> ids(rust::Slice<const {ct}> s) {{ return rust_slice_ids_{t}(s); }}',
          f'  static rust::Slice<const {ct}> sub(rust::Slice<const {ct}> s, std::size_t a, std::size_t b) {{ return rust_subslice_{t}(s, a, b); }}',
          f'  static void scribble(rust::Slice<{ct}> s, std::uint64_t base) {{ rust_scribble_{t}(s, base); }}',
          '};',
          f'template class VLab<{ct}>;',
          f'std::unique_ptr<VLab_{t}> new_{t}() {{ return std::make_unique<VLab_{t}>(); }}']
h += ['} // namespace lab','']
c += ['} // namespace lab','']
# usize/isize are the same C++ types as u64/i64 here: their explicit instantiations collapse.
seen=set(); out=[]; skip=False
body='\n'.join(c)
for t in ("us","iz"):
    pass
open(os.path.join(here,'../src/vecs_ffi.rs'),'w').write('\n'.join(r)+'\n')
open(os.path.join(here,'../cpp/vecs_gen.h'),'w').write('\n'.join(h))
import re
dup={'std::size_t','rust::isize'}
blocks=body
for d in dup:
    blocks=re.sub(r'template <> struct RustSide<'+re.escape(d)+r'> \{.*?\n\};\ntemplate class VLab<'+re.escape(d)+r'>;\n','',blocks,flags=re.S)
# Spread the instantiations over several files so that they build in parallel.
inner=blocks.split('namespace lab {\n',1)[1].rsplit('} // namespace lab',1)[0]
chunks=[]; cur=[]
for line in inner.splitlines():
    if line.startswith('template <> struct RustSide'): chunks.append([])
    chunks[-1].append(line)
N=6
for k in range(N):
    sel=[l for c in chunks[k::N] for l in c]
    open(os.path.join(here,f'../cpp/vecs_gen{k}.cc'),'w').write('\n'.join(['// Generated by dev/mkvec.py.','#include "rt/cpp/vecs_impl.h"','namespace lab {']+sel+['} // namespace lab',''])) 
