// C interface of one build ("variant") of the library, loaded with dlopen(RTLD_LOCAL).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
struct VField {
  const char* name;
  uint32_t offset;
  uint8_t type;
  float resolution;  // <= 0: none
};
struct VDesc {
  uint32_t width, height, point_step;
  int enc, comp, version, threads;
  const VField* fields;
  size_t nfields;
};
// All return 0, or 1 if the library threw (message in err). *n: capacity in, size out.
typedef int (*v_encode_t)(const VDesc*, const uint8_t* cloud, size_t size, uint8_t* out, size_t* n, char* err);
typedef int (*v_decode_t)(const uint8_t* stream, size_t size, uint8_t fill, uint8_t* out, size_t* n, char* err);
typedef int (*v_message_t)(const uint8_t* msg, size_t size, int to_plain, float resolution, int viz, uint8_t* out, size_t* n, char* err);
}
