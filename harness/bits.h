#pragma once
#include <string>
#include <string_view>
// writes DEFLATE streams (RFC 1951), least significant bit first; no branches
// on the content
struct bitwriter {
  std::string out;
  unsigned nbit = 0;
  void bits(unsigned v, unsigned n)
  {
    for (unsigned i = 0; i < n; ++i) {
      if (nbit % 8 == 0) out.push_back(0);
      out.back() = (char) (out.back() | (((v >> i) & 1) << (nbit % 8)));
      ++nbit;
    }
  }
  void huff(unsigned v, unsigned n)
  {
    for (unsigned i = 0; i < n; ++i) bits(v >> (n - 1 - i), 1);
  }
  void pad()
  {
    while (nbit % 8) bits(0, 1);
  }
  void stored(std::string_view s, bool last)
  {
    bits(last, 1);
    bits(0, 2);
    pad();
    bits((unsigned) s.size(), 16);
    bits((unsigned) ~s.size() & 0xffff, 16);
    for (char c : s) bits((unsigned char) c, 8);
  }
  void fixed(bool last)
  {
    bits(last, 1);
    bits(1, 2);
  }
  void lit(unsigned char c, bool high) // high: the literal is 144..255
  {
    if (high) huff(0x190 + (unsigned) c - 144, 9);
    else huff(0x30 + c, 8);
  }
  void eob() { huff(0, 7); }
  // dynamic block with the codes a: 0, b: 10, end of block: 110, c: 1110 and
  // so on up to h and i with 9 bits, distance 1: 0
  void dynamic(bool last)
  {
    bits(last, 1);
    bits(2, 2);
    bits(0, 5);
    bits(0, 5);
    bits(14, 4);
    for (int i = 0; i < 18; ++i) bits(i < 2 ? 0 : 4, 3);
    auto len = [&](unsigned n) { huff(n, 4); };
    auto zeros = [&](unsigned n) {
      huff(15, 4);
      bits(n - 11, 7);
    };
    zeros(97);
    len(1);
    len(2);
    for (unsigned i = 4; i <= 9; ++i) len(i);
    len(9);
    zeros(138);
    zeros(12);
    len(3);
    len(1);
  }
  // length 3..10, distance 1..4
  void match(unsigned len, unsigned dist)
  {
    huff(254 + len - 256, 7);
    huff(dist - 1, 5);
  }
  void len258()
  {
    huff(0xc0 + 285 - 280, 8);
    huff(0, 5);
  }
};
