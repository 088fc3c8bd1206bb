// Files served and saved: the real static_file, file streams and server over
// files in memory.
#include "coro.h"
#include "sym.h"
#include <any>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include "streams.h"
#include <fitoria/web/static_file.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/http_server.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;

namespace {
std::string PATH;
int calls = 0;
bool refused = false;
constexpr long long NS = 1000000000;

auto make_server()
{
  return http_server::builder(sym_executor {})
      .serve(route::get<"/f">([](request& req) -> awaitable<std::variant<static_file, response>> {
        ++calls;
        auto f = static_file::open(sym_executor {}, PATH, req);
        if (f) co_return std::move(*f);
        refused = true;
        co_return response::not_found().build();
      }))
      .serve(route::get<"/p">([]() -> awaitable<std::variant<static_file, response>> {
        ++calls;
        auto f = static_file::open(sym_executor {}, PATH);
        if (f) co_return std::move(*f);
        refused = true;
        co_return response::not_found().build();
      }))
      .build();
}
struct reply {
  int calls = 0;
  bool done = false, failed = false;
  int status = 0;
  std::map<std::string, std::string> h;
  std::string body;
  std::string get(const char* n) const
  {
    auto it = h.find(n);
    return it == h.end() ? std::string("(none)") : it->second;
  }
  bool has(const char* n) const { return h.count(n) != 0; }
};
std::string low(std::string_view s)
{
  std::string r(s);
  for (auto& c : r)
    if (c >= 'A' && c <= 'Z') c += 32;
  return r;
}
template <class S>
reply ask(S& server, const char* target, std::vector<std::pair<field, std::string>> h)
{
  auto b = test_request::get();
  for (auto& [k, v] : h) b.set_header(k, v);
  auto r = std::make_shared<reply>();
  calls = 0;
  refused = false;
  server.serve_request(target, b.build(), [r](test_response res) -> awaitable<void> {
    ++r->calls;
    r->status = (int) res.status().value();
    for (auto it = res.headers().begin(); it != res.headers().end(); ++it)
      r->h[low(std::string_view(it->name_string().data(), it->name_string().size()))] = std::string(it->value().data(), it->value().size());
    if (auto x = co_await res.as_string()) r->body = *x;
    else if (x.error() != make_error_code(net::error::eof)) r->failed = true;
    r->done = true;
  });
  sym_context::get().run();
  sym_assert(calls == 1 && r->calls == 1, "one answer");
  return *r;
}
sym_files::file& put(const char* path, std::string data, long long mtime = 20009LL * 86400 * NS)
{
  PATH = path;
  sym_files::all().clear();
  auto f = std::make_shared<sym_files::file>();
  f->data = std::move(data);
  f->mtime = mtime;
  sym_files::all()[path] = f;
  return *f;
}
std::string num(unsigned long long v)
{
  std::string r;
  do {
    r.insert(r.begin(), (char) ('0' + v % 10));
  } while (v /= 10);
  return r;
}
std::string content(size_t n)
{
  std::string r(n, '.');
  for (size_t i = 0; i < n; ++i) r[i] = (char) ('a' + i % 26);
  return r;
}
bool digit(char c) { return c >= '0' && c <= '9'; }
// the fields that tell the file
void check_file(const reply& r, const char* type)
{
  sym_assert(r.get("last-modified") == "Sun, 13 Oct 2024 00:00:00 GMT", "Last-Modified");
  sym_assert(r.has("etag") && r.get("etag").size() > 2 && r.get("etag")[0] == '"', "a strong ETag");
  sym_assert(r.get("content-type") == type, "Content-Type");
}
// the answer to a request for bytes a..b of the file
void check_part(const reply& r, const std::string& data, size_t a, size_t b, bool known = false)
{
  sym_assert(r.status == 206, "a range of the file");
  if (r.status != 206) return;
  check_file(r, "text/plain");
  sym_assert(r.get("accept-ranges") == "bytes", "Accept-Ranges");
  sym_assert(r.done && !r.failed, "the body ends");
  check_eq(r.body, std::string_view(data).substr(a, b - a + 1), "exactly the bytes of the range");
  auto cr = r.get("content-range");
  auto w = "bytes " + num(a) + "-" + num(b) + "/";
  sym_assert(cr.size() > w.size() && cr.compare(0, w.size(), w) == 0, "Content-Range names the range");
  sym_cover("part");
  auto full = cr.substr(w.size());
  if (full != num(data.size())) {
    // a known finding, reported by fl_range
    if (full != num(b - a + 1)) sym_fail("Content-Range gives the length of the file");
    if (known) sym_fail("Content-Range gives the length of the range as that of the file");
  }
}
void check_not(const reply& r, const std::string& data)
{
  sym_assert(r.status == 416, "no such range");
  sym_assert(r.get("content-range") == "bytes */" + num(data.size()), "Content-Range of the refusal");
  sym_assert(r.done && !r.failed && r.body.empty(), "a refusal has no body");
  sym_cover("refused");
}
void check_full(const reply& r, const std::string& data, const char* type)
{
  sym_assert(r.status == 200, "the whole file");
  check_file(r, type);
  sym_assert(!r.has("content-range"), "no Content-Range");
  sym_assert(r.done && !r.failed, "the body ends");
  sym_assert(r.body.size() == data.size() && std::memcmp(r.body.data(), data.data(), data.size()) == 0, "exactly the bytes of the file");
  sym_cover("full");
}
}

// ranges
HARNESS(fl_range)
{
  auto server = make_server();
  struct tmpl {
    size_t size;
    const char* text;
  };
  static const tmpl T[] = { { 5, "bytes=?-?" }, { 5, "bytes=?-" }, { 5, "bytes=-?" }, { 5, "bytes=?-?,0-1" }, { 5, "bytes=0-?, 9-7" }, { 9, "BYTES=1-?" }, { 30, "bytes=1?-2?" },
    { 0, "bytes=?-?" }, { 0, "bytes=-?" }, { 0, "bytes=?-" }, { 5, "bytes=1-1844674407370955161?" }, { 5, "bytes=-1844674407370955161?" }, { 1, "bytes=?-?" }, { 12, "bytes=-1?" }, { 300, "bytes=2?8-" } };
  auto& t = T[sym_param()];
  std::string data = content(t.size);
  if (t.size) {
    sym_str c("??");
    data[0] = c[0];
    data[t.size - 1] = c[1];
  }
  put("/d/a.txt", data).step = sym_choice(2) ? 2 : 0;
  sym_str h(t.text);
  std::string_view hv = h.sv();
  // digits, one path for each
  std::string pinned(hv);
  for (size_t i = 0; i < hv.size(); ++i) {
    if (t.text[i] != '?') continue;
    sym_assume(digit(hv[i]));
    pinned[i] = (char) sym_concretize((unsigned char) hv[i]);
  }
  hv = pinned;
  auto r = ask(server, "/f", { { field::range, std::string(hv) } });
  // the first range, by its text
  size_t i = 6;
  using u128 = unsigned __int128;
  u128 a = 0, b = 0;
  bool ha = false, hb = false;
  for (; digit(hv[i]); ++i) a = a * 10 + (unsigned) (hv[i] - '0'), ha = true;
  ++i;
  for (; i < hv.size() && digit(hv[i]); ++i) b = b * 10 + (unsigned) (hv[i] - '0'), hb = true;
  size_t n = data.size();
  bool ok = true;
  if (!ha) {
    ok = b > 0 && n > 0 && b <= UINT64_MAX; // larger numbers are none
    a = b < n ? n - b : 0;
    b = n - 1;
  } else if (!hb) {
    ok = a < n;
    b = n - 1;
  } else
    ok = a <= b && b < n;
  if (sym_param() == 4) ok = false; // another range is wrong
  if (ok) check_part(r, data, (size_t) a, (size_t) b, true);
  else check_not(r, data);
}
// other texts in a Range field
HARNESS(fl_unit)
{
  auto server = make_server();
  static const char* const T[] = { "?ytes=1-2", "bytes=1?2", "bytes=?1-2", "bytes?1-2", "bytes=1-2?" };
  std::string data = content(5);
  put("/d/a.txt", data);
  sym_str h(T[sym_param()]);
  for (auto c : h.sv()) sym_assume((unsigned char) c > ' ' && c != 127);
  auto r = ask(server, "/f", { { field::range, std::string(h.sv()) } });
  if (sym_param() == 0) {
    if ((h[0] | 32) == 'b') check_part(r, data, 1, 2);
    else check_not(r, data);
  } else if (sym_param() == 1) {
    if (h[7] == '-') check_part(r, data, 1, 2);
    else check_not(r, data);
  } else if (sym_param() == 3) {
    if (h[5] == '=') check_part(r, data, 1, 2);
    else check_not(r, data);
  } else if (r.status == 206) {
    // digits that change nothing
    if (sym_param() == 2) sym_assert(h[6] == '0', "only a range of the file");
    check_part(r, data, 1, 2);
  } else
    check_not(r, data);
}
// without a range, and conditions
HARNESS(fl_cond)
{
  auto server = make_server();
  std::string data = content(5);
  put("/d/a.txt", data);
  auto tag = ask(server, "/p", {}).get("etag");
  std::vector<std::pair<field, std::string>> h;
  bool part = sym_choice(2);
  if (part) h.emplace_back(field::range, "bytes=1-3");
  int want = 0; // 1: not modified, 2: bad request
  switch (sym_param()) {
  case 0: break;
  case 1:
    h.emplace_back(field::if_none_match, sym_choice(2) ? tag : "W/" + tag);
    want = 1;
    break;
  case 2:
    h.emplace_back(field::if_none_match, "*");
    want = 1;
    break;
  case 3: {
    static const char* const O[] = { "\"x\"", "\"\"", "W/\"x\", \"y\"" };
    h.emplace_back(field::if_none_match, O[sym_choice(3)]);
    break;
  }
  case 4:
    h.emplace_back(field::if_none_match, sym_choice(2) ? "\"x\", " + tag : tag + ", W/\"x\"");
    want = 1;
    break;
  case 5: {
    // one character of the tag changed
    size_t i = 1 + sym_choice(tag.size() - 2);
    sym_str c("?");
    sym_assume((unsigned char) c[0] > ' ' && c[0] != 127 && c[0] != '"' && c[0] != ',');
    std::string t = tag;
    want = c[0] == t[i];
    t[i] = c[0];
    h.emplace_back(field::if_none_match, t);
    break;
  }
  case 6: {
    static const char* const O[] = { "x", "\"x", "\"x\", y" };
    h.emplace_back(field::if_none_match, O[sym_choice(3)]);
    want = 2;
    break;
  }
  }
  auto r = ask(server, "/f", h);
  if (want == 1) {
    sym_assert(r.status == 304, "not modified");
    sym_assert(r.get("etag") == tag && r.get("last-modified") == "Sun, 13 Oct 2024 00:00:00 GMT", "the fields of the file");
    sym_assert(r.body.empty() && r.done, "no body");
    sym_cover("not modified");
  } else if (want == 2) {
    sym_assert(r.status == 400 && r.body.empty(), "a condition that is none");
    sym_cover("bad");
  } else if (part) check_part(r, data, 1, 3);
  else {
    check_full(r, data, "text/plain");
    sym_assert(r.get("accept-ranges") == "bytes", "Accept-Ranges");
  }
}
// an ETag stands for one size and one second
HARNESS(fl_etag)
{
  auto server = make_server();
  static const long long D[] = { 20009LL * 86400, 20009LL * 86400 + 1, 0, 86399 };
  static const size_t N[] = { 0, 1, 12, 21 };
  size_t i = sym_choice(4), j = sym_choice(4), k = sym_choice(4), l = sym_choice(4);
  uint32_t x = sym_u32(), y = sym_u32();
  sym_assume(x < NS);
  sym_assume(y < NS);
  put("/d/a.txt", content(N[k]), D[i] * NS + x);
  auto a = static_file::open(sym_executor {}, PATH);
  put("/d/a.txt", content(N[l]), D[j] * NS + y);
  auto b = static_file::open(sym_executor {}, PATH);
  sym_assert(a && b, "opened");
  if (!a || !b) return;
  bool same = i == j && k == l;
  sym_assert((a->etag() == b->etag()) == same, "the ETag tells files of another size or time apart, and no others");
  sym_assert(a->etag().strong(), "a strong ETag");
  sym_cover(same ? "same" : "other");
}
// bodies around the size in which files are read, and failures
HARNESS(fl_bytes)
{
  auto server = make_server();
  static const size_t N[] = { 0, 1, 65535, 65536, 65537, 131073 };
  size_t n = N[sym_param() % 6];
  std::string data(n, 'x');
  sym_str c("???");
  if (n) {
    data[0] = c[0];
    data[n - 1] = c[1];
  }
  if (n > 65536) data[65536] = c[2];
  auto& f = put("/d/b.bin", data);
  f.step = sym_choice(2) ? 40000 : 0;
  if (sym_param() / 6 == 0) {
    auto r = ask(server, sym_choice(2) ? "/p" : "/f", {});
    check_full(r, data, "application/octet-stream");
    sym_assert(r.get("content-disposition") == "attachment; filename=\"b.bin\"", "Content-Disposition");
    sym_assert(f.opened == 1, "opened once");
  } else {
    // reading fails
    f.fail_at = sym_choice(2) ? n / 2 : 0;
    auto r = ask(server, "/f", {});
    sym_assert(n == 0 || !r.done || r.failed, "what cannot be read does not end well");
    sym_cover("failing");
  }
}
// name and type
HARNESS(fl_name)
{
  auto server = make_server();
  std::string data = "abc";
  struct row {
    const char* path;
    const char* type;
    const char* disp;
  };
  static const row W[] = { { "a.html", "text/html", "inline" }, { "/x/y.z/a.json", "application/json", "inline" }, { "/d/a.png", "image/png", "inline" }, { "/d/a.js", "application/javascript", "inline" }, { "/d/a.wasm", "application/wasm", "inline" },
    { "/d/noext", "application/octet-stream", "attachment; filename=\"noext\"" }, { "/d/a.pdf", "application/octet-stream", "attachment; filename=\"a.pdf\"" }, { "a b.zip", "application/octet-stream", "attachment; filename=\"a b.zip\"" } };
  if (sym_param() < 8) {
    auto& w = W[sym_param()];
    put(w.path, data);
    auto r = ask(server, "/f", {});
    check_full(r, data, w.type);
    check_eq(r.get("content-disposition"), w.disp, "Content-Disposition");
    return;
  }
  static const char* const T[] = { "/d/?", "/d/a?b.zip", "/d/??.tar.gz", "a/.?" };
  sym_str p(T[sym_param() - 8]);
  std::string path(p.sv());
  for (size_t i = 0; i < path.size(); ++i) sym_assume(T[sym_param() - 8][i] != '?' || ((unsigned char) path[i] >= ' ' && path[i] != 127 && path[i] != '/'));
  sym_assume(path[3] != '.' || path.size() > 4);
  put(path.c_str(), data);
  auto r = ask(server, "/p", {});
  sym_assert(r.status == 200, "the whole file");
  auto d = r.get("content-disposition");
  // attachment; filename="...": a quoted string that says the name
  std::string w = "attachment; filename=\"", name;
  sym_assert(d.size() > w.size() && d.compare(0, w.size(), w) == 0, "Content-Disposition");
  size_t i = w.size();
  for (; i < d.size() && d[i] != '"'; ++i) {
    if (d[i] == '\\') ++i;
    if (i < d.size()) name += d[i];
  }
  sym_assert(i + 1 == d.size(), "a quoted string");
  check_eq(name, std::string_view(path).substr(path.rfind('/') + 1), "the name of the file");
  sym_cover("name");
}
HARNESS(fl_missing)
{
  auto server = make_server();
  auto& f = put("/d/a.txt", "abc");
  size_t k = sym_choice(4);
  if (k == 0) f.no_open = true;
  if (k == 1) f.no_time = true;
  if (k == 2) PATH = "/d/b.txt";
  auto r = ask(server, sym_choice(2) ? "/f" : "/p", {});
  sym_assert(refused == (k < 3) && (r.status == 404) == (k < 3), "a file that cannot be opened is reported");
  sym_cover("missing");
}
// bodies saved to files
HARNESS(fl_save)
{
  size_t n = sym_param();
  script s = sym_script(n, 3, true);
  auto& f = put("/d/a", sym_choice(2) ? "what was there before, longer" : "");
  bool old = !f.data.empty();
  if (sym_choice(2)) PATH = "/d/new";
  f.step = sym_choice(2);
  if (sym_choice(2)) f.fail_at = 2;
  bool whole = sym_choice(2);
  std::string all = s.all();
  if (whole) {
    // a longer file is a known finding (fl_keep)
    f.data.clear();
    auto res = test_response(http::status::ok, http::version::v1_1, http::header_map(), script_stream { &s });
    auto r = run(res.as_file(PATH));
    auto& g = *sym_files::all()[PATH];
    bool fits = all.size() <= g.fail_at;
    sym_assert(r.has_value() == (fits && !s.end), "saved unless either side fails");
    if (r) {
      sym_assert(*r == all.size(), "the number of bytes");
      check_eq(g.data, all, "the file is the body");
      sym_cover("saved");
    } else
      sym_cover("not saved");
    if (!r && s.end && fits) sym_assert(r.error() == s.end, "the error of the body");
  } else {
    stream_file file { sym_executor {} };
    boost::system::error_code ec;
    file.open(PATH, static_cast<net::file_base::flags>(net::file_base::create | net::file_base::write_only | net::file_base::append), ec);
    sym_assert(!ec, "opened");
    auto& g = *sym_files::all()[PATH];
    std::string before = g.data;
    if (!before.empty()) g.fail_at = ~size_t(0);
    auto r = run(async_read_into_stream_file(script_stream { &s }, file));
    bool fits = all.size() <= g.fail_at;
    sym_assert(r.has_value() == (fits && !s.end), "written unless either side fails");
    if (r) {
      sym_assert(*r == all.size(), "the number of bytes");
      check_eq(g.data, before + all, "the body follows what was there");
    }
    sym_cover("written");
  }
  sym_observe(old);
}
// the known finding of test_response::as_file: exactly the end of what was there
// stays
HARNESS(fl_keep)
{
  script s = sym_script(sym_param(), 3, false);
  std::string all = s.all();
  std::string before = sym_choice(2) ? "before" : "ab";
  auto& f = put("/d/a", before);
  f.step = sym_choice(2);
  auto res = test_response(http::status::ok, http::version::v1_1, http::header_map(), script_stream { &s });
  auto r = run(res.as_file(PATH));
  sym_assert(r.has_value() && *r == all.size(), "saved");
  auto& g = *sym_files::all()[PATH];
  if (g.data.size() <= all.size()) {
    check_eq(g.data, all, "the file is the body");
    sym_cover("saved");
    return;
  }
  check_eq(g.data, all + (before.size() > all.size() ? before.substr(all.size()) : ""), "nothing else than the end of what was there");
  sym_fail("the end of a longer file stays");
}
