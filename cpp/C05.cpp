// C05: the on-device service delivers every response to its requester, under every schedule.
#define VF_MAIN
#include "vf.hpp"
#include "vsched.hpp"
#include <memory>
#include <optional>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <queue>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <nlohmann/json.hpp>
#define private public
#include "mllm/engine/service/Service.hpp"
#undef private
#include "mllm/utils/Log.hpp"
mllm::LogLevel mllm::Logger::level_ = (mllm::LogLevel)9;
using namespace mllm::service;
using J = nlohmann::json;

// Sessions that wait until two of them run: with two idle workers a long request does not hold up the next one.
static int g_met; static std::mutex g_meet_m; static std::condition_variable g_meet_c;
static void meet() { std::unique_lock<std::mutex> lk(g_meet_m); if (++g_met >= 2) g_meet_c.notify_all(); else g_meet_c.wait(lk, [] { return g_met >= 2; }); }

// What a session is told to do with a request: "n" tokens, then finish / throw / return.
struct Sess : Session {
  std::string tag; explicit Sess(std::string t) : tag(std::move(t)) {}
  void streamGenerate(const J& r, const std::function<void(const J&, bool)>& cb) override {
    std::string id = r.value("id", ""), end = r.value("end", "finish");
    int n = r.value("n", 1);
    if (end == "meet") meet();
    if (end == "throw-first") throw std::runtime_error("no");
    for (int i = 0; i < n; ++i) cb(tag + id + std::to_string(i), false);
    if (end == "throw") throw std::runtime_error("no");
    if (end == "throw-odd") throw 7;
    if (end == "return") return;
    if (end == "non-text") { cb(J(3), false); }
    if (end == "bytes") cb(std::string("\xe4\xbd"), false);
    cb("", true);
    if (end == "throw-after") throw std::runtime_error("no");
  }
};

static J request(const std::string& id, int n = 1, const std::string& end = "finish") { return J{{"id", id}, {"model", "m"}, {"n", n}, {"end", end}}; }
static void check_send(const std::string& s, int want) {
  int r = sendRequest(s);
  if ((r == 0) != (want == 0)) vs::fail(want ? "accepted" : "refused", vf::cat("sendRequest(", s, ") returned ", r));
}
// Reads the stream of one request; want: its tokens; ok: it ends well (otherwise: with an error).
struct Got { std::vector<std::string> toks; bool finished = false, error = false; };
static Got read(const std::string& id, int limit) {
  Got g;
  while (!g.finished) {
    if ((int)g.toks.size() > limit) vs::fail("no-finish", vf::cat("the stream of ", id, " does not finish"));
    J j = J::parse(getResponse(id));
    std::string text; bool stop = false;
    if (j.contains("choices") && j["choices"].is_array() && j["choices"].size()) {
      auto& c = j["choices"][0];
      if (c.contains("delta") && c["delta"].contains("content") && c["delta"]["content"].is_string()) text = c["delta"]["content"].get<std::string>();
      stop = c.contains("finish_reason") && c["finish_reason"].is_string();
      if (j.contains("id") && j["id"] != id) vs::fail("foreign-response", vf::cat("waiting for ", id, " got a response of ", j["id"].dump()));
    }
    g.error = j.contains("error") && j["error"] != J(false) && !j["error"].is_null();
    g.finished = j.value("finished", false);
    if (g.finished != stop && !g.error) vs::fail("finish-flags", vf::cat("a response says finished=", g.finished, " but finish_reason is ", stop ? "set" : "not set"));
    if (text.size()) g.toks.push_back(text); else if (!g.finished) vs::fail("empty-response", vf::cat("the stream of ", id, " holds a response without text that is not its end: ", j.dump()));
  }
  return g;
}
static void expect(const std::string& id, std::vector<std::string> want, bool ok) {
  auto g = read(id, want.size() + 2);
  if (g.toks != want) vs::fail("wrong-stream", vf::cat("the stream of ", id, " is ", vf::seq(g.toks), ", the session produced ", vf::seq(want)));
  if (ok && g.error) vs::fail("error-for-good", vf::cat("the stream of ", id, " ends with an error although its session finished"));
  if (!ok && !g.error) vs::fail("no-error", vf::cat("the stream of ", id, " ends as if its session had finished"));
}
static std::vector<std::string> toks(const std::string& id, int n, const std::string& tag = "") { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(tag + id + std::to_string(i)); return v; }

static bool g_made = false;
static void fresh() { auto& s = Service::instance(); s.~Service(); new (&s) Service(); g_made = true; insertSession("m", std::make_shared<Sess>("")); }
// nothing may be left for anyone
static void drained(std::vector<std::string> ids) {
  for (auto& id : ids) { auto g = read(id, 1); if (g.toks.size() || !g.error) vs::fail("left-over", vf::cat("after its end the stream of ", id, " goes on with ", vf::seq(g.toks))); }
}

struct Kind { const char* name; std::string text; int accept; std::vector<std::string> want; bool ok; };
static std::vector<Kind> kinds(const std::string& id) {
  auto T = [&](int n) { return toks(id, n); };
  auto R = [&](int n, const char* end) { return request(id, n, end).dump(); };
  auto with = [&](const char* k, J v) { J j = request(id); j[k] = v; return j.dump(); };
  auto without = [&](const char* k) { J j = request(id); j.erase(k); return j.dump(); };
  auto b = T(1); b.push_back("\xef\xbf\xbd");
  return {
      {"good", R(2, "finish"), 0, T(2), true}, {"empty-stream", R(0, "finish"), 0, {}, true},
      {"throws-first", R(1, "throw-first"), 0, {}, false}, {"throws-later", R(2, "throw"), 0, T(2), false}, {"throws-odd", R(1, "throw-odd"), 0, T(1), false},
      {"throws-after", R(1, "throw-after"), 0, T(1), true}, {"never-finishes", R(1, "return"), 0, T(1), false}, {"non-text", R(1, "non-text"), 0, T(1), false},
      {"cut-character", R(1, "bytes"), 0, b, true}, {"unknown-model", with("model", "nope"), 0, {}, false}, {"odd-model", with("model", 3), 0, {}, false},
      {"null-model", with("model", nullptr), 0, {}, false}, {"no-model", without("model"), 0, toks(id, 1, "none"), true},
      {"odd-parameter", with("n", "x"), 0, {}, false}, {"no-id", without("id"), 1, {}, false}, {"odd-id", with("id", 3), 1, {}, false}, {"empty-id", with("id", ""), 1, {}, false},
      {"cut", R(2, "finish").substr(0, 9), 1, {}, false}, {"not-json", "hello", 1, {}, false}, {"no-object", "[1]", 1, {}, false}, {"number", "3", 1, {}, false}, {"nothing", "", 1, {}, false},
  };
}

void vf_job(const std::string& name, const std::map<std::string, long>& o, vf::Stats& st) {
  auto g = [&](const char* k, long d) { auto it = o.find(k); return it == o.end() ? d : it->second; };
  vs::Opt opt; opt.preemptions = g("bound", 2); opt.detours = g("detours", 1);
  int workers = g("workers", 1);
  if (name == "faults") {       // all sequences of kinds of requests, in a few schedules each
    opt.max_execs = g("execs", 2); opt.preemptions = 1;
    size_t K = kinds("x").size(); int len = g("len", 2);
    long total = 1; for (int i = 0; i < len; ++i) total *= K;
    for (long c = g("part", 0); c < total; c += g("parts", 1)) {
      std::vector<Kind> ks; std::string what; long x = c;
      for (int i = 0; i < len; ++i, x /= K) { ks.push_back(kinds(std::string(1, 'a' + i))[x % K]); what += std::string(i ? "," : "") + ks.back().name; }
      vs::explore(opt, st, [&] {
        fresh(); Service::instance().sessionPool().registerSession("<none>", std::make_shared<Sess>("none"));
        startService(workers);
        for (auto& k : ks) check_send(k.text, k.accept);
        for (int i = 0; i < len; ++i) if (!ks[i].accept) expect(std::string(1, 'a' + i), ks[i].want, ks[i].ok);
        check_send(request("z", 1).dump(), 0); expect("z", toks("z", 1), true);
        stopService();
        drained({"a", "z"});
      }, what);
    }
    st.exhaustive = true;
    return;
  }
  vs::explore(opt, st, [&] {
    fresh();
    auto user = [&](std::string id, int n, bool cat = false) { check_send(request(id, n).dump(), 0); expect(id, toks(id, n), true); };
    if (name == "one") { startService(workers); user("a", 2); stopService(); drained({"a"}); }
    else if (name == "two-users") { startService(workers); std::thread t([&] { user("b", 1); }); user("a", 1); t.join(); stopService(); drained({"a", "b"}); }
    else if (name == "three-users") { startService(workers); std::thread t([&] { user("b", 1); }), u([&] { user("c", 0); }); user("a", 1); t.join(); u.join(); stopService(); }
    else if (name == "waiter-first") { startService(workers); std::thread t([&] { expect("a", toks("a", 2), true); }); check_send(request("a", 2).dump(), 0); t.join(); stopService(); }
    else if (name == "two-waiters") {
      startService(workers); std::thread t([&] { expect("a", toks("a", 1), true); }), u([&] { expect("b", toks("b", 1), true); });
      check_send(request("a").dump(), 0); check_send(request("b").dump(), 0); t.join(); u.join(); stopService();
    } else if (name == "two-empty-waiters") {   // one response each
      startService(workers); std::thread t([&] { expect("a", {}, true); }), u([&] { expect("b", {}, true); });
      check_send(request("a", 0).dump(), 0); check_send(request("b", 0).dump(), 0); t.join(); u.join(); stopService();
    } else if (name == "meet") {
      g_met = 0; startService(workers);
      check_send(request("a", 1, "meet").dump(), 0); check_send(request("b", 1, "meet").dump(), 0);
      expect("a", toks("a", 1), true); expect("b", toks("b", 1), true); stopService(); drained({"a", "b"});
    } else if (name == "meet-users") {
      g_met = 0; startService(workers);
      auto f = [&](std::string id) { check_send(request(id, 0, "meet").dump(), 0); expect(id, {}, true); };
      std::thread t([&] { f("b"); }); f("a"); t.join(); stopService();
    } else if (name == "send-before-start") { check_send(request("a", 1).dump(), 0); check_send(request("b", 1).dump(), 0); startService(workers); expect("b", toks("b", 1), true); expect("a", toks("a", 1), true); stopService(); }
    else if (name == "stop-then-read") { startService(workers); check_send(request("a", 2).dump(), 0); check_send(request("b", 1).dump(), 0); stopService(); expect("b", toks("b", 1), true); expect("a", toks("a", 2), true); drained({"a", "b"}); }
    else if (name == "stop-concurrent") {       // accepted: the whole stream; refused: an error at once
      startService(workers);
      std::thread t([&] { int r = sendRequest(request("a", 1).dump()); if (r == 0) expect("a", toks("a", 1), true); else expect("a", {}, false); });
      stopService(); t.join();
    } else if (name == "stop-two-users") {
      startService(workers);
      auto f = [&](std::string id) { int r = sendRequest(request(id, 1).dump()); if (r == 0) expect(id, toks(id, 1), true); else expect(id, {}, false); };
      std::thread t([&] { f("a"); }), u([&] { f("b"); });
      stopService(); t.join(); u.join();
    } else if (name == "stop-waiter") { startService(workers); std::thread t([&] { expect("a", {}, false); }); stopService(); t.join(); }
    else if (name == "restart") { for (int i = 0; i < 2; ++i) { startService(workers); user(i ? "b" : "a", 1); stopService(); } }
    else if (name == "restart-left") { startService(workers); check_send(request("a", 1).dump(), 0); stopService(); startService(workers); user("b", 1); expect("a", toks("a", 1), true); stopService(); }
    else if (name == "register") {
      startService(workers); std::thread t([&] { user("a", 1); });
      insertSession("m2", std::make_shared<Sess>("two")); insertSession("m3", std::make_shared<Sess>("three"));
      J r = request("b"); r["model"] = "m2"; check_send(r.dump(), 0); expect("b", toks("b", 1, "two"), true);
      t.join(); stopService();
    } else if (name == "register-again") { startService(workers); std::thread t([&] { user("a", 1); }); insertSession("m", std::make_shared<Sess>("")); t.join(); stopService(); }
    else if (name == "failing-neighbour") {
      startService(workers); std::thread t([&] { check_send(request("b", 1, "throw").dump(), 0); expect("b", toks("b", 1), false); });
      user("a", 1); t.join(); stopService(); drained({"a", "b"});
    } else if (name == "start-twice") { startService(workers); startService(workers); user("a", 1); stopService(); drained({"a"}); }
    else if (name == "stop-twice") { startService(workers); user("a", 1); stopService(); stopService(); drained({"a"}); }
    else if (name == "stop-unstarted") { stopService(); startService(workers); user("a", 1); stopService(); }
    else vs::fail("no-such-job", name);
  }, name);
}
