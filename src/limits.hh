// The limits hook: small files, few open files, small buffers.
#pragma once
#include "engine.hh"

extern "C" { extern size_t urkel_verif_max_file_size, urkel_verif_max_open_files, urkel_verif_write_buffer, urkel_verif_read_buffer; }
extern "C" int urkel_verif_absent __attribute__((weak));
inline bool limits_hooked() { return !&urkel_verif_absent; } // do lowered limits have an effect?
struct Limits {
  size_t f, o, w, r;
  Limits() : f(urkel_verif_max_file_size), o(urkel_verif_max_open_files), w(urkel_verif_write_buffer), r(urkel_verif_read_buffer) {}
  ~Limits() { urkel_verif_max_file_size = f; urkel_verif_max_open_files = o; urkel_verif_write_buffer = w; urkel_verif_read_buffer = r; }
};
// Small limits, so that files roll over and buffers fill.
inline void gen_limits(Ctx &c, unsigned num = 2, unsigned den = 3) {
  Src &s = c.s;
  if (s.chance(num, den)) urkel_verif_max_file_size = s.chance(1, 2) ? s.range(1023, 1400) : s.range(1023, 12000);
  if (s.chance(num, den)) urkel_verif_max_open_files = s.range(2, 6);
  if (s.chance(num, den)) urkel_verif_write_buffer = s.pickl({1, 64, 500, 1500, 4096, 10000});
  if (s.chance(num, den)) urkel_verif_read_buffer = s.pickl({38, 76, 380, 1900, 4096, 65536}); // kept a multiple of the seal size by the library
  c.logf("limits: file %zu, open %zu, write %zu, read %zu", urkel_verif_max_file_size, urkel_verif_max_open_files, urkel_verif_write_buffer, urkel_verif_read_buffer);
}

