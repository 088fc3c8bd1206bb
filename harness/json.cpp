#include "streams.h"
#include <boost/json/src.hpp>
#include <boost/url.hpp>
#include <fitoria/web/handler.hpp>
#include <fitoria/web/json_of.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/test_request.hpp>
#include <fitoria/web/test_response.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;
namespace json = boost::json;
struct point {
  signed char x;
  std::string y;
  friend json::result_for<point, json::value>::type tag_invoke(const json::try_value_to_tag<point>&, const json::value& jv)
  {
    auto fail = [] { return boost::system::error_code(json::error::incomplete); };
    if (!jv.is_object()) return fail();
    auto x = jv.get_object().if_contains("x");
    auto y = jv.get_object().if_contains("y");
    if (!x || !y || !x->is_int64() || !y->is_string() || x->get_int64() < -128 || x->get_int64() > 127) return fail();
    return point { (signed char) x->get_int64(), std::string(y->get_string()) };
  }
  friend void tag_invoke(const json::value_from_tag&, json::value& jv, const point& p) { jv = { { "x", p.x }, { "y", p.y } }; }
};
namespace {
// RFC 8259, acceptance only
struct reader {
  std::string_view s;
  size_t i = 0;
  unsigned char at(size_t k) const { return k < s.size() ? (unsigned char) s[k] : 0; }
  static bool blank(unsigned char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
  static bool digit(unsigned char c) { return (unsigned char) (c - '0') < 10; }
  static bool hex(unsigned char c) { return digit(c) | ((unsigned char) ((c | 32) - 'a') < 6); }
  void ws()
  {
    while (i < s.size() && blank(at(i))) ++i;
  }
  bool str()
  {
    for (++i; i < s.size();) {
      unsigned char c = at(i);
      if (c == '"') return ++i, true;
      if (c < 32) return false;
      if (c == '\\') {
        unsigned char d = at(i + 1);
        if (i + 1 >= s.size()) return false;
        if (d == 'u') {
          for (size_t k = 2; k < 6; ++k)
            if (!hex(at(i + k))) return false;
          i += 6;
          continue;
        }
        bool ok = false;
        for (char e : std::string_view("\"\\/bfnrt")) ok |= d == (unsigned char) e;
        if (!ok) return false;
        i += 2;
      } else if (c < 128)
        ++i;
      else {
        // well-formed UTF-8 only
        size_t n = (c >= 0xC2 && c <= 0xDF) ? 1 : (c >= 0xE0 && c <= 0xEF) ? 2 : (c >= 0xF0 && c <= 0xF4) ? 3 : 0;
        if (!n || i + n >= s.size()) return false;
        unsigned char d = at(i + 1);
        if ((d & 0xC0) != 0x80) return false;
        if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) return false;
        for (size_t k = 2; k <= n; ++k)
          if ((at(i + k) & 0xC0) != 0x80) return false;
        i += n + 1;
      }
    }
    return false;
  }
  bool num()
  {
    if (at(i) == '-') ++i;
    if (!digit(at(i))) return false;
    if (at(i) == '0') ++i;
    else
      while (digit(at(i))) ++i;
    if (at(i) == '.') {
      ++i;
      if (!digit(at(i))) return false;
      while (digit(at(i))) ++i;
    }
    if ((at(i) | 32) == 'e') {
      ++i;
      if (at(i) == '+' || at(i) == '-') ++i;
      if (!digit(at(i))) return false;
      while (digit(at(i))) ++i;
    }
    return true;
  }
  bool word(std::string_view w)
  {
    if (s.size() - i < w.size()) return false;
    if (!bytes_eq(s.data() + i, w.data(), w.size())) return false;
    i += w.size();
    return true;
  }
  bool value()
  {
    ws();
    if (i >= s.size()) return false;
    unsigned char c = at(i);
    if (c == '"') return str();
    if (c == '-' || digit(c)) return num();
    if (c == 't') return word("true");
    if (c == 'f') return word("false");
    if (c == 'n') return word("null");
    if (c != '[' && c != '{') return false;
    bool obj = c == '{';
    unsigned char e = obj ? '}' : ']';
    ++i;
    ws();
    if (i < s.size() && at(i) == e) return ++i, true;
    for (;;) {
      if (obj) {
        ws();
        if (i >= s.size() || at(i) != '"' || !str()) return false;
        ws();
        if (i >= s.size() || at(i) != ':') return false;
        ++i;
      }
      if (!value()) return false;
      ws();
      if (i >= s.size()) return false;
      if (at(i) == e) return ++i, true;
      if (at(i) != ',') return false;
      ++i;
    }
  }
  bool text()
  {
    if (!value()) return false;
    ws();
    return i == s.size();
  }
};
bool accepts(std::string_view s) { return reader { s }.text(); }
bool got;
point val;
}
// any text, or a template: accepted exactly when it is JSON and nothing else
HARNESS(js_text)
{
  static const char* const T[] = { "", "?", "??", "???", "\"??\"", "[?,?]", "{\"a\"??}", "{\"?\":1?", "[1,?2]?", "tru?", "?null", "\"\\??\"", "[[]??", "{\"a\":{}?}", "-?,?", "\"\\u00?1\"", "1 ?", "[true?false]", "????" };
  sym_str t(T[sym_param()]);
  // numbers with a fraction or an exponent are outside
  bool digit = false, frac = false;
  for (size_t i = 0; i < t.n; ++i) {
    digit |= reader::digit(t[i]);
    frac |= (t[i] == '.') | ((t[i] | 32) == 'e');
  }
  if (t.n < 4 || sym_param() == 18) sym_assume(!(digit & frac));
  auto r = web::detail::as_json<>(std::string_view(t.sv()));
  bool ok = accepts(t.sv());
  sym_assert(r.has_value() == ok, "accepted exactly when it is JSON and nothing else");
  sym_cover(ok ? "json" : "not json");
}
// the argument of a handler
HARNESS(js_of)
{
  size_t n = sym_param();
  static const char* const CT[] = { "application/json", "Application/JSON; charset=utf-8", "text/plain", "application/json2", "application/ld+json", "text/json", "application", nullptr };
  static const char* const T[] = { "{\"x\":?,\"y\":\"?\"}", "{\"x\":-12?,\"y\":\"\"}", "{\"x\":12?,\"y\":\"a\"}", "{\"y\":\"?\",\"x\":7}?", "{\"?\":1,\"y\":\"b\"}", "{\"x\":1?,\"y\":\"a longer text than sixteen?\"}", "[1,\"?\"]", "{\"x\":1,\"y\":?}" };
  size_t ct = n < 100 ? sym_choice(2) : n - 100;
  sym_str t(T[n < 100 ? n : 0]);
  script b;
  std::string s(t.sv());
  size_t cut = sym_choice(3) * s.size() / 2;
  b.pieces = { s.substr(0, cut) };
  if (cut < s.size()) b.pieces.push_back(s.substr(cut));
  if (sym_choice(2)) b.end = std::make_error_code(std::errc::connection_reset);
  http::header_map h;
  if (CT[ct]) h.set(field::content_type, CT[ct]);
  auto req = request_builder(connect_info(), path_info("/x", "/x", {}), http::verb::post, http::version::v1_1, h, query_map(), script_stream { &b }, state_storage()).build();
  got = false;
  auto rt = route::post<"/x">([](json_of<point> p) -> awaitable<response> {
    got = true;
    val = p;
    co_return response::accepted().build();
  }).template build<request&, awaitable<response>>(handler());
  auto r = run(rt.service()(req));
  // the reference
  bool ok = ct < 2 && !b.end && accepts(s);
  point w {};
  if (ok) {
    // x is a number of 8 bits and y a string: read off the templates
    auto find = [&](std::string_view k) {
      auto p = s.find(k);
      return p == s.npos ? s.size() : p + k.size();
    };
    size_t x = find("\"x\":"), y = find("\"y\":");
    ok = s[0] == '{' && x < s.size() && y < s.size() && s[y] == '"';
    if (ok) {
      bool neg = s[x] == '-';
      long v = 0;
      size_t i = x + neg, d = 0;
      for (; (unsigned char) (s[i] - '0') < 10; ++i, ++d) v = v * 10 + (s[i] - '0');
      ok = d > 0 && (s[i] == ',' || s[i] == '}' || s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r');
      if (neg) v = -v;
      ok = ok && v >= -128 && v <= 127;
      w.x = (signed char) v;
      size_t e = s.find('"', y + 1);
      w.y = s.substr(y + 1, e - y - 1);
    }
  }
  sym_assert(got == ok, "the handler runs exactly when the body is JSON of its type");
  sym_assert((int) r.status().value() == (ok ? 202 : 400), "a body that is not what the handler wants is answered 400");
  if (ct >= 2) sym_assert(b.reads == 0, "a body of another type is not read");
  if (ok && got) {
    sym_assert(val.x == w.x, "the number of the body");
    check_eq(val.y, w.y, "the text of the body");
    sym_cover("taken");
  } else
    sym_cover("refused");
}
// what is set as JSON is read back
HARNESS(js_set)
{
  size_t kind = sym_param();
  json::value v;
  sym_str c("?");
  unsigned char k = (unsigned char) c[0];
  sym_assume(k < 128);
  std::string text = std::string("a") + (char) k + "b";
  static const long long NUM[] = { 0, -1, 127, -128, 9223372036854775807ll };
  long long num = kind == 1 ? (long long) (signed char) sym_concretize(sym_u8()) : NUM[sym_choice(kind == 4 ? 4 : 5)];
  if (kind == 1 && sym_choice(2)) num *= 72057594037927936ll;
  point p { (signed char) num, text };
  switch (kind) {
    case 0: v = text; break;
    case 1: v = num; break;
    case 2: v = { nullptr, true, false, json::array(), json::object() }; break;
    case 3: v = { { "x", { { "y", text } } }, { text + "k", json::array { num, text } } }; break;
    case 4: v = json::value_from(p); break;
    case 5: v = nullptr; break;
  }
  size_t who = sym_choice(3);
  http::header_map h;
  std::string out;
  if (who == 0) {
    auto b = response::accepted().set_header("x-a", "1").set_header(field::content_type, "text/plain");
    auto r = kind == 4 ? std::move(b).set_json(p) : std::move(b).set_json(v);
    sym_assert(r.status().value() == http::status::accepted, "the status set before");
    h = r.headers();
    auto sz = std::get_if<any_body::sized>(&r.body().size());
    auto s = run(async_read_until_eof<std::string>(r.body().stream()));
    sym_assert(s.has_value() && sz && sz->size == s->size(), "a body of known size");
    out = *s;
  } else if (who == 1) {
    auto b = request_builder(connect_info(), path_info("/x", "/x", {}), http::verb::put, http::version::v1_0, http::header_map(), query_map(), async_readable_vector_stream(), state_storage()).set_header("x-a", "1").set_header(field::content_type, "text/plain");
    auto r = kind == 4 ? std::move(b).set_json(p) : std::move(b).set_json(v);
    sym_assert(r.method() == http::verb::put && r.version() == http::version::v1_0 && r.path().match_path() == "/x", "the parts set before");
    h = r.headers();
    auto s = run(async_read_until_eof<std::string>(r.body()));
    sym_assert(s.has_value(), "a body");
    out = *s;
  } else {
    auto b = test_request::post().set_header("x-a", "1").set_header(field::content_type, "text/plain");
    auto r = kind == 4 ? std::move(b).set_json(p) : std::move(b).set_json(v);
    sym_assert(r.method() == http::verb::post, "the method set before");
    h = r.headers();
    auto s = run(async_read_until_eof<std::string>(r.body().stream()));
    sym_assert(s.has_value(), "a body");
    out = *s;
  }
  sym_assert(h.get("x-a") == optional<std::string_view>("1"), "the headers set before");
  sym_assert(std::count_if(h.begin(), h.end(), [](auto& e) { return e.name() == field::content_type; }) == 1 && h.get(field::content_type) == optional<std::string_view>("application/json"), "the content type is JSON");
  sym_assert(accepts(out), "the body is JSON");
  observe(out);
  auto back = web::detail::as_json<>(out);
  sym_assert(back.has_value() && *back == v, "the body reads back as what was set");
  // and through a response of the test client
  size_t ct = sym_choice(2);
  if (ct) h.set(field::content_type, "text/plain");
  auto tr = test_response(http::status::ok, http::version::v1_1, h, async_readable_vector_stream(std::span((const std::byte*) out.data(), out.size())));
  auto a = run(tr.as_json<json::value>());
  if (ct) sym_assert(!a && a.error() == make_error_code(web::error::unexpected_content_type), "a body of another type is not JSON");
  else sym_assert(a.has_value() && *a == v, "the response reads back as what was set");
  sym_cover("set");
}
