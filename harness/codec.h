// Stand-ins for zlib and the Brotli library: a toy format behind the same
// interfaces, which keep to what the documentation of those interfaces says
// about progress, buffers and results. Everything is encoded as
//   <magic> { L byte | R n | D } E
// where R n is a run of 'x': n bytes, with 0: 65536, 255: 65535, 254: 65537.
#pragma once
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <cstring>
#include <string>
#include <zlib.h>

namespace toy {
enum status { more, full, end, bad, dict };
inline int live, opened;
struct decoder {
  unsigned char magic;
  int st = 0; // 0 magic, 1 operation, 2 literal, 3 run, 4 output, 5 end, 6 bad, 7 dictionary
  size_t run = 0;
  unsigned char c = 0;
  status go(const unsigned char*& in, size_t& ni, unsigned char*& out, size_t& no)
  {
    for (;;) {
      if (st == 5) return end;
      if (st == 6) return bad;
      if (st == 7) return dict;
      if (st == 4) {
        size_t n = run < no ? run : no;
        if (n) std::memset(out, c, n);
        out += n;
        no -= n;
        run -= n;
        if (run) return full;
        st = 1;
      }
      if (!ni) return more;
      unsigned char b = *in++;
      --ni;
      switch (st) {
      case 0: st = b == magic ? 1 : 6; break;
      case 1: st = b == 'L' ? 2 : b == 'R' ? 3 : b == 'E' ? 5 : b == 'D' ? 7 : 6; break;
      case 2:
        c = b;
        run = 1;
        st = 4;
        break;
      case 3:
        c = 'x';
        run = b == 0 ? 65536 : b == 255 ? 65535 : b == 254 ? 65537 : b;
        st = 4;
        break;
      }
    }
  }
};
inline std::string encode(std::string_view s, char magic)
{
  std::string r(1, magic);
  for (char c : s) {
    r += 'L';
    r += c;
  }
  return r + 'E';
}
}

extern "C" {
inline int inflateInit2_(z_streamp s, int bits, const char* version, int size)
{
  if (size != (int) sizeof(z_stream) || version[0] != ZLIB_VERSION[0]) return Z_VERSION_ERROR;
  if (s->zalloc || s->zfree) return Z_STREAM_ERROR;
  // 16 more than the size of the window: the gzip format
  s->state = (internal_state*) new toy::decoder { (unsigned char) (bits == 31 ? 'Z' : 0) };
  s->total_in = s->total_out = 0;
  ++toy::live;
  ++toy::opened;
  return Z_OK;
}
inline int inflate(z_streamp s, int flush)
{
  auto* d = (toy::decoder*) s->state;
  if (!d || !s->next_out || (!s->next_in && s->avail_in)) return Z_STREAM_ERROR;
  const unsigned char* in = s->next_in;
  unsigned char* out = s->next_out;
  size_t ni = s->avail_in, no = s->avail_out;
  toy::status r = d->go(in, ni, out, no);
  size_t di = s->avail_in - ni, doo = s->avail_out - no;
  s->next_in = (Bytef*) in;
  s->next_out = out;
  s->avail_in = (uInt) ni;
  s->avail_out = (uInt) no;
  s->total_in += di;
  s->total_out += doo;
  if (r == toy::end) return Z_STREAM_END;
  if (r == toy::bad) return Z_DATA_ERROR;
  if (r == toy::dict) return Z_NEED_DICT;
  if ((!di && !doo) || flush == Z_FINISH) return Z_BUF_ERROR;
  return Z_OK;
}
inline int inflateEnd(z_streamp s)
{
  if (!s->state) return Z_STREAM_ERROR;
  delete (toy::decoder*) s->state;
  s->state = nullptr;
  --toy::live;
  return Z_OK;
}
inline BrotliDecoderState* BrotliDecoderCreateInstance(brotli_alloc_func, brotli_free_func, void*)
{
  ++toy::live;
  ++toy::opened;
  return (BrotliDecoderState*) new toy::decoder { 'B' };
}
inline void BrotliDecoderDestroyInstance(BrotliDecoderState* s)
{
  --toy::live;
  delete (toy::decoder*) s;
}
inline BrotliDecoderResult BrotliDecoderDecompressStream(BrotliDecoderState* s, size_t* ni, const uint8_t** in, size_t* no, uint8_t** out, size_t* total)
{
  switch (((toy::decoder*) s)->go(*in, *ni, *out, *no)) {
  case toy::more: return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT;
  case toy::full: return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT;
  case toy::end: return BROTLI_DECODER_RESULT_SUCCESS;
  default: return BROTLI_DECODER_RESULT_ERROR;
  }
}
}
namespace toy {
// takes input only while little output waits, gives out as much as fits
struct encoder {
  std::string wait = "B";
  size_t room;
  bool lazy, finishing = false, over = false;
};
inline size_t enc_room = 8;
inline bool enc_lazy = false;
}
extern "C" {
inline BrotliEncoderState* BrotliEncoderCreateInstance(brotli_alloc_func, brotli_free_func, void*)
{
  ++toy::live;
  ++toy::opened;
  return (BrotliEncoderState*) new toy::encoder { "B", toy::enc_room, toy::enc_lazy };
}
inline void BrotliEncoderDestroyInstance(BrotliEncoderState* s)
{
  --toy::live;
  delete (toy::encoder*) s;
}
inline BROTLI_BOOL BrotliEncoderCompressStream(BrotliEncoderState* s, BrotliEncoderOperation op, size_t* ni, const uint8_t** in, size_t* no, uint8_t** out, size_t* total)
{
  auto& e = *(toy::encoder*) s;
  if (e.finishing && (op != BROTLI_OPERATION_FINISH || *ni)) return BROTLI_FALSE;
  if (op != BROTLI_OPERATION_PROCESS && op != BROTLI_OPERATION_FINISH) return BROTLI_FALSE;
  for (;;) {
    bool moved = false;
    while (*ni && (e.lazy || e.wait.size() + 2 <= e.room)) {
      e.wait += 'L';
      e.wait += (char) **in;
      ++*in;
      --*ni;
      moved = true;
    }
    if (op == BROTLI_OPERATION_FINISH && !*ni && !e.finishing) {
      e.finishing = true;
      e.wait += 'E';
    }
    if (!e.lazy || e.finishing) {
      size_t n = e.wait.size() < *no ? e.wait.size() : *no;
      if (n) std::memcpy(*out, e.wait.data(), n);
      *out += n;
      *no -= n;
      e.wait.erase(0, n);
      if (n) moved = true;
    }
    if (!moved) break;
  }
  return BROTLI_TRUE;
}
inline BROTLI_BOOL BrotliEncoderIsFinished(BrotliEncoderState* s)
{
  auto& e = *(toy::encoder*) s;
  return e.finishing && e.wait.empty() ? BROTLI_TRUE : BROTLI_FALSE;
}
}
