// Definitions, included once per program.
void *operator new(std::size_t n) {
  lab_alloc(1);
  return std::malloc(n ? n : 1);
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p) {
    lab_alloc(-1);
    std::free(p);
  }
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
void *operator new(std::size_t n, std::align_val_t a) {
  lab_alloc(1);
  std::size_t al = std::size_t(a) < sizeof(void *) ? sizeof(void *) : std::size_t(a);
  return std::aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al));
}
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { operator delete(p); }

extern "C" {
std::string *lab_new_string(std::uint64_t seed) { return new std::string(lab::M<std::string>::mk(seed)); }
void lab_free_string(void *p) { delete static_cast<std::string *>(p); }
void lab_shared_string(void *p, std::uint64_t seed) { new (p) std::shared_ptr<std::string>(new std::string(lab::M<std::string>::mk(seed))); }
std::vector<std::string> *lab_vec_string(std::uint64_t seed) { return new std::vector<std::string>(lab::M<std::vector<std::string>>::mk(seed)); }
void lab_vecset_string(void *p, std::uint64_t seed) { lab::set(*static_cast<std::vector<std::string> *>(p), seed); }
}
