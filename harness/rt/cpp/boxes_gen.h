// Generated by dev/mkbox.py.
#pragma once
namespace lab {
class BLabR : public BLab<R> {};
std::unique_ptr<BLabR> new_blab_R();
class BLabZ : public BLab<Z> {};
std::unique_ptr<BLabZ> new_blab_Z();
class BLabAl : public BLab<Al> {};
std::unique_ptr<BLabAl> new_blab_Al();
class BLabS : public BLab<S> {};
std::unique_ptr<BLabS> new_blab_S();
}
