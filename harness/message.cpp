// Requests and responses as built by applications.
#include "streams.h"
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>

#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/request.hpp>
#include <fitoria/web/response.hpp>
#include <fitoria/web/test_request.hpp>

#include <fitoria/web/to_response.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;

namespace {
struct row {
  int cls;
  std::string v;
};
struct nm {
  const char* s;
  int cls;
  field f;
};
const nm N[] = { { "Content-Type", 0, field::content_type }, { "cONTENT-tYPE", 0, field::content_type }, { "X-A", 1, field::unknown }, { "x-a", 1, field::unknown } };
void check_headers(const http::header_map& h, const std::vector<row>& m)
{
  sym_assert(h.size() == m.size(), "the headers given and no others");
  for (size_t k = 0; k < 4; k += 2) {
    auto r = h.equal_range(N[k].s);
    std::vector<const row*> w;
    for (auto& e : m)
      if (e.cls == N[k].cls) w.push_back(&e);
    size_t i = 0;
    for (auto it = r.first; it != r.second; ++it, ++i) {
      if (i >= w.size()) sym_fail("more headers than given");
      check_eq(std::string_view(it->value().data(), it->value().size()), w[i]->v, "header values in order");
    }
    sym_assert(i == w.size(), "all values of a header");
  }
}
// operations both kinds of builder have; the model follows
template <class B>
void header_op(B& b, std::vector<row>& m, size_t k)
{
  const nm& n = N[sym_choice(4)];
  bool by = n.f != field::unknown && sym_choice(2);
  sym_str t("??");
  std::string v = k % 2 ? "a value of more than sixteen characters" : std::string(t.sv());
  if (k % 2 == 0) sym_assume((unsigned char) t[0] > ' ' && (unsigned char) t[1] > ' ');
  bool set = sym_choice(2);
  bool rv = sym_choice(2);
  if (set) std::erase_if(m, [&](const row& r) { return r.cls == n.cls; });
  m.push_back({ n.cls, v });
  if (!rv) {
    B& r = set ? (by ? b.set_header(n.f, v) : b.set_header(n.s, v)) : (by ? b.insert_header(n.f, v) : b.insert_header(n.s, v));
    sym_assert(&r == &b, "chaining");
  } else {
    auto&& r = set ? (by ? std::move(b).set_header(n.f, v) : std::move(b).set_header(n.s, v))
                   : (by ? std::move(b).insert_header(n.f, v) : std::move(b).insert_header(n.s, v));
    sym_assert(&r == &b, "chaining");
    B c(std::move(r));
    b = std::move(c);
  }
}
// what a message's body must be
struct body_model {
  int kind = 0; // 0 none, 1 sized, 2 sized without a size, 3 streamed
  std::string text;
};
template <class R>
void check_body(R& r, const body_model& m)
{
  auto& k = r.body().size();
  sym_assert(std::holds_alternative<any_body::null>(k) == (m.kind == 0), "no body exactly when none was given");
  sym_assert(std::holds_alternative<any_body::chunked>(k) == (m.kind == 3), "streamed exactly when given so");
  if (auto z = std::get_if<any_body::sized>(&k)) {
    sym_assert(z->size.has_value() == (m.kind == 1), "its size is known");
    if (z->size) sym_assert(*z->size == m.text.size(), "its size");
  }
  auto s = run(async_read_until_eof<std::string>(r.body().stream()));
  sym_assert(s.has_value(), "body");
  if (s) check_eq(*s, m.text, "the bytes of the body");
}
script S;
template <class B>
auto finish(B& b, body_model& m)
{
  m = {};
  sym_str t("??");
  switch (sym_choice(6)) {
  case 0:
    return b.set_body();
  case 1:
    m = { 1, "text" + std::string(t.sv()) };
    return b.set_body(std::string_view(m.text));
  case 2: {
    m = { 1, std::string(t.sv()) };
    auto sp = std::as_bytes(std::span(m.text.data(), m.text.size()));
    return b.set_body(sp);
  }
  case 3:
    S = script { { std::string(t.sv()), "more" }, {} };
    m = { 2, S.all() };
    return b.set_body(script_stream { &S });
  case 4:
    S = script { { "a", std::string(t.sv()) }, {} };
    m = { 3, S.all() };
    return b.set_stream_body(script_stream { &S });
  default:
    m = { 1, "" };
    return b.set_body(std::string_view());
  }
}
}
HARNESS(ms_response)
{
  size_t steps = sym_param() % 10;
  response_builder b(http::status::accepted);
  int status = 202;
  auto ver = http::version::v1_1;
  std::vector<row> m;
  body_model bm;
  auto ops = [&](response_builder& b, size_t k) {
    switch (sym_choice(4)) {
    case 0: {
      int v = (int) sym_u16();
      sym_assert(&b.set_status(http::status_code(v)) == &b, "chaining");
      status = v;
      break;
    }
    case 1: {
      response_builder c(std::move(b).set_status(http::status::not_found));
      b = std::move(c);
      status = 404;
      break;
    }
    case 2:
      if (sym_choice(2)) b.set_version(http::version::v1_0);
      else std::move(b).set_version(http::version::v1_0);
      ver = http::version::v1_0;
      break;
    default:
      header_op(b, m, k);
    }
  };
  auto check = [&](response& r) {
    const response& c = r;
    sym_assert((int) c.status().value() == status, "the status set last");
    sym_observe((uint64_t) c.status().value());
    sym_assert(c.version() == ver, "the version set last");
    check_headers(c.headers(), m);
  };
  for (size_t k = 0; k < steps; ++k) ops(b, k);
  response r = finish(b, bm);
  check(r);
  if (sym_param() < 10 && sym_choice(2)) {
    // building on keeps everything else
    response r2(std::move(r));
    auto b2 = r2.builder();
    ops(b2, 0);
    r = sym_choice(2) ? b2.build() : finish(b2, bm);
    check(r);
    sym_cover("rebuilt");
  }
  response c = r;
  check(c);
  check_body(r, bm);
  sym_cover("built");
}
HARNESS(ms_request)
{
  size_t steps = sym_param();
  state_storage st;
  auto sm = std::make_shared<state_map>();
  (*sm)[std::type_index(typeid(int))] = 7;
  st.copy_prepend(sm);
  connect_info ci;
  std::vector<std::pair<std::string, std::string>> pp = { { "p", "v" } };
  request_builder b(ci, path_info("/{p}", "/v", std::move(pp)), http::verb::get, http::version::v1_0, {}, {}, async_readable_vector_stream(), st.copy_prepend(sm));
  auto method = http::verb::get;
  std::vector<row> m;
  std::vector<std::pair<std::string, std::string>> q;
  std::string body;
  auto ops = [&](request_builder& b, size_t k) {
    switch (sym_choice(3)) {
    case 0:
      if (sym_choice(2)) sym_assert(&b.set_method(http::verb::put) == &b, "chaining");
      else std::move(b).set_method(http::verb::put);
      method = http::verb::put;
      break;
    case 1: {
      const char* n = sym_choice(2) ? "k" : "key";
      sym_str v("??");
      if (sym_choice(2)) b.set_query(n, std::string(v.sv()));
      else std::move(b).set_query(n, std::string(v.sv()));
      std::erase_if(q, [&](auto& e) { return e.first == n; });
      q.emplace_back(n, std::string(v.sv()));
      break;
    }
    default:
      header_op(b, m, k);
    }
  };
  auto fin = [&](request_builder& b) -> request {
    sym_str t("??");
    switch (sym_choice(5)) {
    case 0: body.clear(); return b.set_body();
    case 1: body = "text" + std::string(t.sv()); return b.set_body(std::string_view(body));
    case 2: {
      body = std::string(t.sv());
      return b.set_body(std::as_bytes(std::span(body.data(), body.size())));
    }
    case 3:
      S = script { { std::string(t.sv()), "more" }, {} };
      body = S.all();
      return b.set_body(script_stream { &S });
    default: return b.build();
    }
  };
  auto check = [&](request& r) {
    const request& c = r;
    sym_assert(c.method() == method, "the method set last");
    sym_assert(c.version() == http::version::v1_0, "the version");
    check_headers(c.headers(), m);
    sym_assert(c.query().size() == q.size(), "the query parameters given");
    for (auto& e : q) {
      auto g = c.query().get(e.first);
      sym_assert(g.has_value(), "a query parameter");
      if (g) check_eq(*g, e.second, "its last value");
    }
    check_eq(c.path().match_pattern(), "/{p}", "pattern");
    check_eq(c.path().match_path(), "/v", "path");
    sym_assert(c.path().size() == 1 && c.path().get("p") && *c.path().get("p") == "v", "path parameters");
    auto s = c.state<int>();
    sym_assert(s && *s == 7 && !c.state<long>(), "states");
  };
  for (size_t k = 0; k < steps; ++k) ops(b, k);
  request r = fin(b);
  check(r);
  if (sym_choice(2)) {
    request r2(std::move(r));
    auto b2 = r2.builder();
    ops(b2, 0);
    r = fin(b2);
    check(r);
    sym_cover("rebuilt");
  }
  auto s = run(async_read_until_eof<std::string>(r.body()));
  sym_assert(s.has_value(), "body");
  if (s) check_eq(*s, body, "the bytes of the body");
  sym_cover("built");
}
HARNESS(ms_test_request)
{
  size_t steps = sym_param();
  struct {
    test_request_builder (*f)();
    http::verb v;
  } static const F[] = { { [] { return test_request::get(); }, http::verb::get }, { [] { return test_request::post(); }, http::verb::post }, { [] { return test_request::put(); }, http::verb::put },
    { [] { return test_request::patch(); }, http::verb::patch }, { [] { return test_request::delete_(); }, http::verb::delete_ }, { [] { return test_request::head(); }, http::verb::head }, { [] { return test_request::options(); }, http::verb::options } };
  size_t f = sym_choice(7);
  auto b = F[f].f();
  auto method = F[f].v;
  auto ver = http::version::v1_1;
  std::vector<row> m;
  body_model bm;
  std::string qv;
  bool hasq = false;
  for (size_t k = 0; k < steps; ++k) {
    switch (sym_choice(4)) {
    case 0:
      if (sym_choice(2)) b.set_version(http::version::v1_0);
      else std::move(b).set_version(http::version::v1_0);
      ver = http::version::v1_0;
      break;
    case 1:
      if (sym_choice(2)) b.set_method(http::verb::put);
      else std::move(b).set_method(http::verb::put);
      method = http::verb::put;
      break;
    case 2: {
      sym_str v("??");
      qv = std::string(v.sv());
      hasq = true;
      if (sym_choice(2)) b.set_query("q", qv);
      else std::move(b).set_query("q", qv);
      break;
    }
    default: header_op(b, m, k);
    }
  }
  test_request r = finish(b, bm);
  if (sym_choice(2)) {
    auto b2 = r.builder();
    r = sym_choice(2) ? b2.build() : finish(b2, bm);
    sym_cover("rebuilt");
  }
  sym_assert(r.method() == method && r.version() == ver, "method and version");
  check_headers(r.headers(), m);
  sym_assert(r.query().size() == (hasq ? 1u : 0u), "query");
  if (hasq && r.query().get("q")) check_eq(*r.query().get("q"), qv, "query value");
  check_body(r, bm);
  sym_cover("built");
}
// every named status
HARNESS(ms_status)
{
  struct {
    response_builder (*f)();
    int v;
  } static const F[] = {
#define X(n, v) { [] { return response::n(); }, v }
    X(continue_, 100), X(switching_protocols, 101), X(processing, 102), X(early_hints, 103),
    X(ok, 200), X(created, 201), X(accepted, 202), X(non_authoritative_information, 203), X(no_content, 204), X(reset_content, 205), X(partial_content, 206), X(multi_status, 207), X(already_reported, 208), X(im_used, 226),
    X(multiple_choices, 300), X(moved_permanently, 301), X(found, 302), X(see_other, 303), X(not_modified, 304), X(use_proxy, 305), X(temporary_redirect, 307), X(permanent_redirect, 308),
    X(bad_request, 400), X(unauthorized, 401), X(payment_required, 402), X(forbidden, 403), X(not_found, 404), X(method_not_allowed, 405), X(not_acceptable, 406), X(proxy_authentication_required, 407), X(request_timeout, 408), X(conflict, 409), X(gone, 410), X(length_required, 411), X(precondition_failed, 412), X(payload_too_large, 413), X(uri_too_long, 414), X(unsupported_media_type, 415), X(range_not_satisfiable, 416), X(expectation_failed, 417), X(misdirected_request, 421), X(unprocessable_entity, 422), X(locked, 423), X(failed_dependency, 424), X(too_early, 425), X(upgrade_required, 426), X(precondition_required, 428), X(too_many_requests, 429), X(request_header_fields_too_large, 431), X(unavailable_for_legal_reasons, 451),
    X(internal_server_error, 500), X(not_implemented, 501), X(bad_gateway, 502), X(service_unavailable, 503), X(gateway_timeout, 504), X(http_version_not_supported, 505), X(variant_also_negotiates, 506), X(insufficient_storage, 507), X(loop_detected, 508), X(not_extended, 510), X(network_authentication_required, 511),
#undef X
  };
  size_t i = sym_choice(std::size(F));
  auto r = F[i].f().build();
  sym_assert((int) r.status().value() == F[i].v, "the named status");
  sym_assert((int) r.status().category() == F[i].v / 100, "its class");
  sym_assert(r.version() == http::version::v1_1 && r.headers().empty() && std::holds_alternative<any_body::null>(r.body().size()), "and nothing else");
  sym_observe((uint64_t) r.status().value());
  sym_cover("status");
}
HARNESS(ms_code)
{
  int v = (int) sym_u32(), w = (int) sym_u32();
  http::status_code a(v), b(w), c { static_cast<http::status>(v) };
  sym_assert((unsigned) a.value() == (unsigned) v, "the number is kept");
  sym_assert(a == c && (a == b) == (v == w), "codes are equal exactly when the numbers are");
  unsigned k = (unsigned) v / 100;
  sym_assert((unsigned) a.category() == (k >= 1 && k <= 5 ? k : 0), "the class is the first digit");
  sym_observe((uint64_t) a.category());
}
// results of handlers become responses
HARNESS(ms_to_response)
{
  sym_str t("??");
  std::string s(t.sv());
  auto is = [&](response r, int st, const char* ct, std::string_view body) {
    sym_assert((int) r.status().value() == st, "status");
    auto h = r.headers().get(field::content_type);
    sym_assert(h.has_value() == (ct != nullptr), "type of content");
    if (h && ct) check_eq(*h, ct, "type of content");
    sym_assert(r.headers().size() == (ct ? 1u : 0u), "no other header");
    check_body(r, { body.data() ? 1 : 0, std::string(body) });
  };
  using V = std::variant<response, std::string, std::vector<unsigned char>>;
  auto nf = [] { return response::not_found().set_body(std::string_view("nf")); };
  switch (sym_choice(10)) {
  case 0: is(to_response(s), 200, "text/plain", s); break;
  case 1: is(to_response(nf()), 404, nullptr, "nf"); break;
  case 2: {
    std::vector<std::uint16_t> v = { (std::uint16_t) ((unsigned char) t[0] | (unsigned char) t[1] << 8), 0x4241 };
    is(to_response(v), 200, "application/octet-stream", s + "AB");
    break;
  }
  case 3: is(to_response(V(s)), 200, "text/plain", s); break;
  case 4: is(to_response(V(nf())), 404, nullptr, "nf"); break;
  case 5: is(to_response(V(std::vector<unsigned char>(3, (unsigned char) t[0]))), 200, "application/octet-stream", std::string(3, t[0])); break;
  case 6: is(to_response(expected<std::string, response>(s)), 200, "text/plain", s); break;
  case 7: is(to_response(expected<std::string, response>(unexpect, nf())), 404, nullptr, "nf"); break;
  case 8: is(to_response(expected<response, V>(unexpect, V(s))), 200, "text/plain", s); break;
  case 9: {
    auto r = nf();
    const response& c = r;
    is(to_response(c), 404, nullptr, "nf");
    break;
  }
  }
  observe(s);
  sym_cover("converted");
}
