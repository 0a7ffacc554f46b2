/* The part of A01 that a C program sees: the header must compile as C and link against the library. */
#include <libunicode/capi.h>

int c_gc_count(u32_char_t const* p, size_t n) { return u32_gc_count(p, n); }
int c_gc_count8(u8_char_t const* p, size_t n) { return u8_gc_count(p, n); }
int c_gc_width(u32_char_t const* p, size_t n, int m) { return u32_gc_width(p, n, m); }
int c_gc_width8(u8_char_t const* p, size_t n, int m) { return u8_gc_width(p, n, m); }
int c_unbreakable(u32_char_t a, u32_char_t b) { return u32_grapheme_unbreakable(a, b); }
u8u32_stream_state_t c_create(void) { return u8u32_stream_convert_create(); }
int c_run(u8u32_stream_state_t h, u8_char_t c, u32_char_t* o) { return u8u32_stream_convert_run(h, c, o); }
void c_destroy(u8u32_stream_state_t* h) { u8u32_stream_convert_destroy(h); }
int c_convert(u32_char_t const* s, size_t n, u8_char_t* d, size_t l) { return u32u8_convert(s, n, d, l); }
int c_valid(u32_char_t c) { return u32_is_valid_codepoint(c) ? 1 : 0; }
u32_char_t c_cleared(u32_char_t c) { return u32_unused_bit_cleared(c); }
u32_char_t c_mask(u32_char_t c) { return u32_unused_bit_mask(c); }
int c_nonmod(void) { return GC_WIDTH_MODE_NON_MODIFIABLE; }
int c_mod(void) { return GC_WIDTH_MODE_MODIFIABLE; }
