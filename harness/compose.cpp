// Routes, scopes, middlewares and states put together.
#include "pool.h"
#include "streams.h"
#include <chrono>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include <fitoria/web/any_routable.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/handler.hpp>
#include <fitoria/log.hpp>
#include <fitoria/web/middleware/exception_handler.hpp>
#include <fitoria/web/middleware/logger.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/router.hpp>
#include <fitoria/web/scope.hpp>
#include <fitoria/web/state_of.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;

namespace {
std::string trace; // what ran, in order
unsigned act[8]; // what each middleware does
// 0 passes on, 1 answers itself, 2 adds a header to the request, 3 adds one to the response, 4 throws before, 5 throws after, 6 calls twice
struct odd : std::exception {
  const char* what() const noexcept override { return "odd"; }
};
struct full : std::bad_alloc {
  const char* what() const noexcept override { return "full"; }
};
std::vector<std::string> thrown; // the texts of the exceptions handled
void boom()
{
  size_t k = sym_choice(4);
  const char* const t[] = { "", "", "odd", "full" }; // what() of the standard ones is a stub
  thrown.push_back(t[k]);
  switch (k) {
  case 0: throw std::runtime_error("runtime_error");
  case 1: throw std::invalid_argument("logic_error");
  case 2: throw odd();
  default: throw full();
  }
}
template <class Request, class Response, class Next>
struct mw_next {
  int id;
  Next next;
  auto operator()(Request req) const -> Response
  {
    trace += (char) ('0' + id);
    unsigned a = act[id];
    if (a == 1) co_return response::forbidden().set_header("x-by", std::string(1, (char) ('0' + id))).build();
    if (a == 2) req = req.builder().insert_header("x-q", std::string(1, (char) ('0' + id))).build();
    if (a == 4) boom();
    auto r = co_await next(req);
    if (a == 5) boom();
    if (a == 6) r = co_await next(req);
    if (a == 3) r = r.builder().insert_header("x-r", std::string(1, (char) ('0' + id))).build();
    trace += (char) ('a' + id);
    co_return r;
  }
};
struct mw {
  int id;
  template <class Request, class Response, decay_to<mw> Self, class Next>
  friend auto tag_invoke(to_middleware_t<Request, Response>, Self&& self, Next&& next)
  {
    return mw_next<Request, Response, std::decay_t<Next>> { self.id, std::forward<Next>(next) };
  }
};
request req_for(std::string pattern, std::string path)
{
  return request(connect_info(), path_info(std::move(pattern), std::move(path), {}), http::verb::get, http::version::v1_1, {}, {}, async_readable_vector_stream(), {});
}
std::vector<std::string> all(const http::header_map& h, std::string_view n)
{
  std::vector<std::string> r;
  auto e = h.equal_range(n);
  for (auto it = e.first; it != e.second; ++it) r.emplace_back(it->value().data(), it->value().size());
  return r;
}
std::string join(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& s : v) r += s;
  return r;
}
// what the logger middleware writes, and what it should
std::vector<std::string> logged, logs;
size_t errors = 0;
std::string the_pattern;
struct log_writer : log::async_writer {
  auto async_write(log::record_ptr r) -> log::awaitable<void> override
  {
    if (r->lv == log::level::error) {
      // of the exception handler
      sym_assert(errors < thrown.size() && r->msg.ends_with(thrown[errors]), "an exception is logged with its text");
      ++errors;
      logged.push_back("E");
      co_return;
    }
    sym_assert(r->lv == log::level::info, "requests are logged as information");
    logged.push_back(r->msg);
    co_return;
  }
};
// the reference: what the chain of middlewares `ids` around the handler does
struct outcome {
  std::string trace, reqh, resh;
  int status = 0; // 0: an exception
};
outcome ref(std::string_view ids, std::string& reqh)
{
  outcome o;
  if (ids.empty()) {
    o.trace = "H" + reqh;
    o.status = 200;
    return o;
  }
  unsigned a = ids[0] == 'X' || ids[0] == 'L' ? 100 : act[ids[0] - '0'];
  if (ids[0] == 'X') {
    o = ref(ids.substr(1), reqh);
    if (!o.status) {
      logs.push_back("E");
      o.status = 500;
      o.resh.clear();
    }
    return o;
  }
  if (ids[0] == 'L') {
    o = ref(ids.substr(1), reqh);
    if (o.status) logs.push_back("[fitoria.middleware.logger] remote GET " + the_pattern + " " + std::to_string(o.status) + " agent ");
    return o;
  }
  std::string me(1, ids[0]), back(1, (char) (ids[0] - '0' + 'a'));
  o.trace = me;
  if (a == 1) {
    o.status = 403;
    o.resh = "=" + me;
    o.trace = me;
    return o;
  }
  if (a == 4) return o;
  if (a == 2) reqh += me;
  outcome n = ref(ids.substr(1), reqh);
  o.trace += n.trace;
  if (!n.status) return o;
  if (a == 5) return o;
  if (a == 6) {
    n = ref(ids.substr(1), reqh);
    o.trace += n.trace;
    if (!n.status) return o;
  }
  o.status = n.status;
  o.resh = n.resh;
  if (a == 3) o.resh += me;
  o.trace += back;
  return o;
}
auto the_handler = [](request& r) -> awaitable<response> {
  trace += "H" + join(all(r.headers(), "x-q"));
  co_return response::ok().build();
};
template <class R>
void check_chain(const R& rt, std::string_view ids)
{
  auto req = req_for(std::string(rt.matcher().pattern()), "/p");
  std::string q;
  req.connection_.remote_ = "remote";
  req.headers_.set(field::user_agent, "agent");
  the_pattern = "/p";
  logs.clear();
  logged.clear();
  ::thrown.clear();
  errors = 0;
  outcome w = ref(ids, q);
  trace.clear();
  bool thrown = false;
  try {
    response r = run(rt(req));
    sym_assert((int) r.status().value() == w.status, "the response of the innermost that answers");
    std::string h = join(all(r.headers(), "x-r"));
    if (r.headers().get("x-by")) h = "=" + std::string(*r.headers().get("x-by")) + h;
    check_eq(h, w.resh, "responses pass outwards through the middlewares");
  } catch (const std::exception&) {
    thrown = true;
  }
  sym_assert(thrown == (w.status == 0), "exceptions pass outwards until handled");
  settle();
  if (!log::registry::global().default_logger()) logs.clear();
  sym_assert(logged.size() == logs.size(), "one line for each answer that passes the logger");
  for (size_t i = 0; i < logged.size() && i < logs.size(); ++i)
    check_eq(std::string_view(logged[i]).substr(0, logs[i].size()), logs[i], "the line tells who asked for what, and the status");
  check_eq(trace, w.trace, "middlewares run in the order they were added, outer scopes first, each around the next");
  observe(trace);
  sym_cover(thrown ? "thrown" : "answered");
}
using any = any_routable<request&, awaitable<response>>;
template <class R>
any built(const R& r)
{
  return any(r.template build<request&, awaitable<response>>(handler()));
}
void acts(std::string_view ids)
{
  for (char c : ids)
    if (c != 'X' && c != 'L') act[c - '0'] = (unsigned) sym_choice(7);
}
}
HARNESS(cp_chain)
{
  switch (sym_param()) {
  case 0:
    check_chain(built(route::get<"/">(the_handler)), "");
    break;
  case 1:
    acts("0");
    check_chain(built(route::get<"/">(the_handler).use(mw { 0 })), "0");
    break;
  case 2:
    acts("01");
    check_chain(built(route::get<"/">(the_handler).use(mw { 0 }).use(mw { 1 })), "01");
    break;
  case 3:
    acts("012");
    check_chain(built(route::get<"/">(the_handler).use(mw { 0 }).use(mw { 1 }).use(mw { 2 })), "012");
    break;
  case 4: {
    acts("01");
    auto s = scope<"/a">().use(mw { 0 }).serve(route::get<"/">(the_handler).use(mw { 1 }));
    check_chain(built(std::get<0>(s.routes())), "01");
    break;
  }
  case 5: {
    // two scopes around a route
    acts("012");
    auto s = scope<"/a">().use(mw { 0 }).serve(scope<"/b">().use(mw { 1 }).serve(route::get<"/">(the_handler).use(mw { 2 })));
    check_chain(built(std::get<0>(s.routes())), "012");
    break;
  }
  case 6: {
    // a route added earlier has only the middlewares added before it
    acts("0123");
    auto inner = scope<"/b">().serve(route::get<"/1">(the_handler)).use(mw { 2 }).serve(route::get<"/2">(the_handler).use(mw { 3 }));
    auto s = scope<"/a">().use(mw { 0 }).use(mw { 1 }).serve(inner);
    size_t k = sym_choice(3);
    if (k == 0) check_chain(built(std::get<0>(s.routes())), "01");
    if (k == 1) check_chain(built(std::get<1>(s.routes())), "0123");
    if (k == 2) check_chain(built(std::get<1>(inner.routes())), "23");
    break;
  }
  case 7: {
    acts("012");
    check_chain(built(route::get<"/">(the_handler).use(mw { 0 }).use(middleware::exception_handler()).use(mw { 1 }).use(mw { 2 })), "0X12");
    break;
  }
  case 8: {
    acts("01");
    auto s = scope<"/a">().use(middleware::exception_handler()).serve(route::get<"/">(the_handler).use(mw { 0 }).use(middleware::exception_handler()).use(mw { 1 }));
    check_chain(built(std::get<0>(s.routes())), "X0X1");
    break;
  }
  case 10:
  case 11: {
    g_choices = 0;
    auto l = log::async_logger::builder().build();
    l->add_writer(std::make_shared<log_writer>());
    log::registry::global().set_default_logger(std::move(l));
    acts("01");
    if (sym_param() == 10) check_chain(built(route::get<"/">(the_handler).use(mw { 0 }).use(middleware::logger()).use(mw { 1 })), "0L1");
    else {
      auto s = scope<"">().use(middleware::logger()).use(middleware::exception_handler()).serve(route::get<"/">(the_handler).use(mw { 0 }).use(middleware::logger()).use(mw { 1 }));
      check_chain(built(std::get<0>(s.routes())), "LX0L1");
    }
    log::registry::global().set_default_logger(nullptr);
    break;
  }
  case 9: {
    // adding to a route or scope gives a new one, the old one is as before
    acts("01");
    auto r = route::get<"/">(the_handler).use(mw { 0 });
    auto r2 = r.use(mw { 1 });
    auto s = scope<"/s">().use(mw { 1 });
    auto s2 = s.serve(r);
    size_t k = sym_choice(3);
    if (k == 0) check_chain(built(r), "0");
    if (k == 1) check_chain(built(r2), "01");
    if (k == 2) {
      check_chain(built(std::get<0>(s2.routes())), "10");
      sym_assert(std::tuple_size_v<decltype(s.routes())> == 0, "the scope it was added to is as before");
    }
    break;
  }
  }
}
// ---- states: the innermost wins
namespace {
struct A {
  unsigned v;
};
struct B {
  std::string v;
};
template <unsigned Bits, class R>
auto with(const R& r, unsigned v, std::string t)
{
  if constexpr ((Bits & 3) == 3) return r.use_state(A { v }).use_state(B { t });
  else if constexpr (Bits & 1) return r.use_state(A { v });
  else if constexpr (Bits & 2) return r.use_state(B { t });
  else return r;
}
template <unsigned Bits>
void states()
{
  sym_str t("???");
  unsigned a[3] = { sym_u32(), sym_u32(), sym_u32() };
  std::string b[3] = { "r" + std::string(1, t[0]), "i" + std::string(1, t[1]), "a longer text than sixteen characters" + std::string(1, t[2]) };
  constexpr unsigned br = Bits & 3, bi = (Bits >> 2) & 3, bo = (Bits >> 4) & 3;
  auto route = with<br>(route::get<"/">(the_handler), a[0], b[0]);
  auto inner = with<bi>(scope<"/i">(), a[1], b[1]).serve(route);
  auto outer = with<bo>(scope<"/o">(), a[2], b[2]).serve(inner);
  any r = built(std::get<0>(outer.routes()));
  const state_storage& st = r.states();
  int ia = br & 1 ? 0 : bi & 1 ? 1 : bo & 1 ? 2 : -1, ib = br & 2 ? 0 : bi & 2 ? 1 : bo & 2 ? 2 : -1;
  auto x = st.state<A>();
  auto y = st.state<B>();
  sym_assert(x.has_value() == (ia >= 0) && y.has_value() == (ib >= 0), "a state is found exactly when one was given");
  if (x && ia >= 0) {
    sym_assert(x->v == a[ia], "the one of the route before that of the inner scope before that of the outer");
    sym_observe(x->v);
  }
  if (y && ib >= 0) {
    check_eq(y->v, b[ib], "the one of the route before that of the inner scope before that of the outer");
    observe(y->v);
  }
  // the route by itself and the inner scope by itself do not see more
  any alone = built(route);
  auto z = alone.states().state<A>();
  sym_assert(z.has_value() == (bool) (br & 1), "a route does not see states of scopes it was added to elsewhere");
  any two = built(std::get<0>(inner.routes()));
  auto w = two.states().state<B>();
  sym_assert(w.has_value() == (((br | bi) & 2) != 0), "nor an inner scope those of an outer one");
  if (w && (br | bi) & 2) check_eq(w->v, br & 2 ? b[0] : b[1], "states of the inner scope by itself");
  // routes share the state of a scope
  if (ia > 0 && x) {
    x->v = 9;
    any again = built(std::get<0>(outer.routes()));
    sym_assert(again.states().state<A>()->v == 9, "a scope's state is one object");
  }
  sym_cover("states");
}
template <size_t... I>
void pick(size_t k, std::index_sequence<I...>)
{
  ((k == I ? states<I>() : void()), ...);
}
}
HARNESS(cp_states) { pick((size_t) sym_choice(64), std::make_index_sequence<64> {}); }
// ---- methods and paths of what is built, found through the router
HARNESS(cp_paths)
{
  auto h = [](std::string_view n) {
    return [n](request&) -> awaitable<response> {
      trace = n;
      co_return response::ok().build();
    };
  };
  router<request&, awaitable<response>> rt;
  auto add = [&](auto r) { sym_assert(rt.try_insert(built(r)).has_value(), "distinct routes are accepted"); };
  auto t = scope<"/api">()
               .serve(route::get<"/x">(h("get x")))
               .serve(route::post<"/x">(h("post x")))
               .serve(scope<"/v/{n}">().serve(route::put<"/{m}">(h("put nm"))).serve(route::delete_<"">(h("delete n"))))
               .serve(route::patch<"/{p}">(h("patch p")))
               .serve(route::head<"/f/#rest">(h("head rest")));
  std::apply([&](auto... r) { (add(r), ...); }, t.routes());
  add(route::options<"/o">(h("options")));
  add(route::handle<"/h">(http::verb::trace, h("trace")));
  add(route::any<"/any">(h("any")));
  struct {
    http::verb v;
    const char *path, *name, *pattern;
  } const W[] = { { http::verb::get, "/api/x", "get x", "/api/x" }, { http::verb::post, "/api/x", "post x", "/api/x" }, { http::verb::put, "/api/v/1/x", "put nm", "/api/v/{n}/{m}" },
    { http::verb::delete_, "/api/v/q", "delete n", "/api/v/{n}" }, { http::verb::patch, "/api/z", "patch p", "/api/{p}" }, { http::verb::head, "/api/f/a/b", "head rest", "/api/f/#rest" },
    { http::verb::options, "/o", "options", "/o" }, { http::verb::trace, "/h", "trace", "/h" }, { http::verb::get, "/any", "any", "/any" }, { http::verb::put, "/any", "any", "/any" },
    { http::verb::get, "/o", nullptr, nullptr }, { http::verb::put, "/api/x", nullptr, nullptr }, { http::verb::get, "/x", nullptr, nullptr }, { http::verb::delete_, "/api/v/q/", nullptr, nullptr } };
  size_t k = sym_choice(std::size(W));
  auto r = rt.try_find(W[k].v, W[k].path);
  sym_assert(r.has_value() == (W[k].name != nullptr), "a route is found under its method and the path of its scopes and itself");
  if (r && W[k].name) {
    check_eq(r->matcher().pattern(), W[k].pattern, "its pattern is the path of its scopes and itself");
    auto req = req_for("", "");
    run((*r)(req));
    check_eq(trace, W[k].name, "its own handler is called");
  }
  sym_cover("paths");
}
