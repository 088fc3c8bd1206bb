#include "sym.h"
#include <functional>
#include <memory>
#include <fitoria/core/optional.hpp>
#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <fitoria/log/level.hpp>
using namespace fitoria;
using log::filter;
using log::level;

namespace {
const char* const N[] = { "trace", "debug", "info", "warning", "error", "fatal" };
const char* const U[] = { "TRACE", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "UNKNOWN" };
struct ltab {
  unsigned char t[256];
  constexpr ltab()
      : t()
  {
    for (int c = 0; c < 256; ++c) t[c] = (unsigned char) (c >= 'A' && c <= 'Z' ? c + 32 : c);
  }
};
constexpr ltab LO;
unsigned ref_level(std::string_view s)
{
  unsigned r = 6;
  for (unsigned k = 0; k < 6; ++k) {
    std::string_view n(N[k]);
    if (n.size() != s.size()) continue;
    bool eq = true;
    for (size_t i = 0; i < n.size(); ++i) eq &= LO.t[(unsigned char) s[i]] == (unsigned char) n[i];
    r = eq ? k : r;
  }
  return r;
}
}
HARNESS(lg_level)
{
  sym_str s(sym_param());
  auto lv = log::to_level(s.sv());
  unsigned w = ref_level(s.sv());
  sym_assert((unsigned) lv == w, "a level is read by its name in any case, anything else is off");
  sym_observe((uint64_t) lv);
  unsigned i = (unsigned) sym_choice(8);
  check_eq(log::to_string((level) i), U[i < 6 ? i : 6], "name of a level");
  check_eq(fmt::format("<{}>", (level) i), std::string("<") + U[i < 6 ? i : 6] + ">", "formatted level");
  sym_assert((unsigned) log::to_level(log::to_string((level) i)) == (i < 6 ? i : 6), "a printed level is read back");
  sym_cover("level");
}
HARNESS(lg_filter)
{
  unsigned a = (unsigned) sym_choice(7), b = (unsigned) sym_choice(7), c = (unsigned) sym_choice(7);
  uint8_t q = sym_u8();
  sym_assume(q < 7);
  auto at = filter::at_least((level) a);
  sym_assert(at.is_allowed((level) q) == ((q >= a) & (q != 6)), "at_least lets through exactly that level and above");
  sym_assert(filter::all().is_allowed((level) q) == (q != 6), "all lets through every level");
  filter l { (level) a, (level) b, (level) c };
  sym_assert(l.is_allowed((level) q) == (((q == a) | (q == b) | (q == c)) & (q != 6)), "a list lets through exactly its levels");
  filter e(std::initializer_list<level> {});
  sym_assert(!e.is_allowed((level) q), "an empty list lets through nothing");
  filter l1 { (level) b };
  sym_assert(l1.is_allowed((level) q) == ((q == b) & (q != 6)), "a list lets through exactly its levels");
  sym_observe(at.is_allowed((level) q));
  sym_cover("filter");
}
HARNESS(lg_env)
{
  size_t n = sym_param();
  uint8_t q = sym_u8();
  sym_assume(q < 7);
  if (n == 9) {
    sym_env("CPP_LOG", nullptr);
    sym_assert(!filter::from_env().is_allowed((level) q), "no variable, nothing passes");
    sym_cover("unset");
    return;
  }
  sym_str s(n);
  for (size_t i = 0; i < n; ++i) sym_assume(s[i] != 0);
  std::string v(s.sv());
  sym_env("CPP_LOG", v.c_str());
  auto f = filter::from_env();
  unsigned w = ref_level(s.sv());
  bool al = f.is_allowed((level) q);
  sym_assert(al == ((q >= w) & (q != 6)), "the variable names the least level that passes");
  sym_observe(al);
  sym_cover("set");
}

// ---- formatter
namespace {
std::string_view ref_file(bool only, std::string_view f)
{
  size_t b = 0;
  if (only)
    for (size_t i = 0; i < f.size(); ++i)
      if ((f[i] == '/') | (f[i] == '\\')) b = i + 1;
  return f.substr(b);
}
std::string num(uint32_t v)
{
  std::string r;
  do {
    r.insert(r.begin(), (char) ('0' + v % 10));
    v /= 10;
  } while (v);
  return r;
}
const char* const NLS[] = { "\n", "\r\n", "\r" };
auto rec(long t, level lv, std::string msg, std::string_view file, std::string_view fn, uint32_t line, uint32_t col)
{
  auto r = std::make_shared<log::record>(log::record::clock_t::time_point(std::chrono::seconds(t)), source_location::current(), lv, std::move(msg));
  r->file_name = file;
  r->function_name = fn;
  r->line = line;
  r->column = col;
  return r;
}
constexpr uint32_t NUM[] = { 0, 7, 10, 999, 4294967295u };
}
HARNESS(lg_newline)
{
  for (unsigned i = 0; i < 3; ++i) check_eq(log::get_newline((log::newline_style) i), NLS[i], "newline");
  check_eq(log::get_newline(log::newline_style::system), "\n", "newline");
  sym_str f(sym_param());
  check_eq(log::get_file_name(log::file_name_style::full_path, f.sv()), f.sv(), "full path");
  auto g = log::get_file_name(log::file_name_style::file_name_only, f.sv());
  check_eq(g, ref_file(true, f.sv()), "text after the last separator");
  sym_assert(g.data() + g.size() == f.end() || g.empty(), "a view of the path");
  observe(g);
  sym_cover("file");
}
// default pattern, every field
HARNESS(lg_default)
{
  size_t mode = sym_param();
  static const long TZ[] = { 0, 19800, -28800 };
  sym_tz(TZ[sym_choice(3)]);
  std::string big(600, 'm');
  big += "?}{";
  sym_str msg(mode == 0 ? "????" : mode == 1 ? "?{}%?" : big.c_str()), fn(mode == 2 ? "auto ns::a_rather_long_function_name(int?)" : "f?("), file(mode == 0 ? "/a?b.c" : mode == 1 ? "?" : "/home/user/project/source/a?file_name.cpp");
  unsigned lv = (unsigned) sym_choice(8), nl = (unsigned) sym_choice(3), fs = (unsigned) sym_choice(2);
  unsigned li = (unsigned) sym_choice(2), co = (unsigned) sym_choice(2);
  uint32_t line = NUM[li * 3 + 1], col = NUM[co * 4];
  log::formatter::builder b;
  b.set_newline_style((log::newline_style) nl);
  b.set_file_name_style((log::file_name_style) fs);
  auto f = b.build();
  auto r = rec(1718450703, (level) lv, std::string(msg.sv()), file.sv(), fn.sv(), line, col);
  auto s = f.format(r);
  std::string w("[2024-06-15T11:25:03Z ");
  w += U[lv < 6 ? lv : 6];
  w += " ";
  w += fn.sv();
  w += "] ";
  w += msg.sv();
  w += " [";
  w += ref_file(fs == 1, file.sv());
  w += ":";
  w += num(line);
  w += ":";
  w += num(col);
  w += "]";
  w += NLS[nl];
  check_eq(s, w, "a line has every field of the record, in the order of the pattern");
  observe(s);
  sym_cover("default");
}
// other patterns; the record's texts are never taken for format strings
HARNESS(lg_pattern)
{
  sym_str msg("?{?}"), fn("??"), file("?/{?");
  unsigned lv = (unsigned) sym_choice(6);
  uint32_t line = NUM[sym_choice(5)];
  log::formatter::builder b;
  std::string w;
  auto L = num(line);
  std::string fl(ref_file(true, file.sv()));
  switch (sym_param()) {
  case 0:
    b.set_pattern("{MSG:}");
    w = std::string(msg.sv());
    break;
  case 1:
    b.set_pattern("{LV}-{MSG}{MSG}");
    w = std::string(U[lv]) + "-" + std::string(msg.sv()) + std::string(msg.sv());
    break;
  case 2:
    b.set_pattern("{LINE:}{{{FILE:}}}{FUNC:}");
    w = L + "{" + fl + "}" + std::string(fn.sv());
    break;
  case 3:
    b.set_pattern("");
    break;
  case 4:
    b.set_pattern("{COL}:{TIME:%H:%M}");
    w = "3:11:25";
    break;
  }
  auto f = b.build();
  auto s = f.format(rec(1718450703, (level) lv, std::string(msg.sv()), file.sv(), fn.sv(), line, 3));
  w += "\n";
  check_eq(s, w, "a line follows the pattern");
  // building again from the same builder gives the same formatter
  auto g = b.build();
  check_eq(g.format(rec(1718450703, (level) lv, std::string(msg.sv()), file.sv(), fn.sv(), line, 3)), w, "a formatter is reusable");
  observe(s);
  sym_cover("pattern");
}
// level styles only add an escape sequence around the level
HARNESS(lg_style)
{
  unsigned lv = (unsigned) sym_choice(6);
  sym_str msg("??");
  log::formatter::builder b;
  b.set_pattern("a{LV:} {MSG:}");
  bool color = sym_choice(2);
  unsigned seen = 99;
  if (color) b.set_color_level_style();
  else
    b.set_level_style([&](level l) {
      seen = (unsigned) l;
      return fmt::text_style(fmt::emphasis::bold);
    });
  auto f = b.build();
  auto s = f.format(rec(0, (level) lv, std::string(msg.sv()), "x", "y", 1, 1));
  if (!color) {
    sym_assert(seen == lv, "the style is asked for the level of the record");
    std::string w("a\x1b[1m");
    w += U[lv];
    w += "\x1b[0m ";
    w += msg.sv();
    w += "\n";
    check_eq(s, w, "styled level");
  } else {
    static const char* const C[] = { "255;255;255", "000;255;255", "050;205;050", "255;255;000", "255;000;000", "255;000;255" };
    std::string w("a\x1b[38;2;");
    w += C[lv];
    w += "m";
    w += U[lv];
    w += "\x1b[0m ";
    w += msg.sv();
    w += "\n";
    check_eq(s, w, "coloured level");
  }
  observe(s);
  sym_cover("style");
}
