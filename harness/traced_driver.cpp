// Interprets programs over traced exception objects: one JSON op per line in, one JSON answer per line out.
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <cpptrace/exceptions_macros.hpp>
#include "mjson.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <thread>
#include <vector>
using namespace cpptrace;
#define NOINL __attribute__((noinline))
struct derived : cpptrace::runtime_error { int extra = 42; using cpptrace::runtime_error::runtime_error; };
struct derived_lazy : cpptrace::lazy_exception {
    std::string text;
    explicit derived_lazy(std::string s, raw_trace&& t = cpptrace::detail::get_raw_trace_and_absorb()) : cpptrace::lazy_exception(std::move(t)), text("derived: " + s) {}
    const char* message() const noexcept override { return text.c_str(); }
};
struct plain_thing { int x; };
template<typename T> struct tmpl_thing { T t; };
namespace ns { struct std_like : std::exception { const char* what() const noexcept override { return "std_like says"; } }; }

// what a trace should be: the frames above the constructing function, and that function's name and line
struct origin { std::vector<frame_ptr> raw; std::string fn; int line = 0; bool exact = false; };
static std::vector<origin> origins(1);
static int g_line;
static raw_trace g_raw;
#define HERE (g_line = __LINE__, g_raw = generate_raw_trace())

struct cell {
    std::string kind;
    std::shared_ptr<void> p;
    const cpptrace::exception* e = nullptr;
    const lazy_exception* l = nullptr;
    std::function<cell()> copy, move;
    std::function<void(cell&)> assign, massign;
    std::function<void()> raise;
};
template<typename T> cell mk(const std::string& kind, T* q) {
    cell c;
    c.kind = kind;
    c.p = std::shared_ptr<void>(q, [](void* x) { delete static_cast<T*>(x); });
    c.e = q;
    c.copy = [=] { return mk<T>(kind, new T(*static_cast<const T*>(q))); };
    c.move = [=] { return mk<T>(kind, new T(std::move(*q))); };
    c.assign = [=](cell& s) { *q = *static_cast<const T*>(static_cast<const T*>(s.p.get())); };
    c.massign = [=](cell& s) { *q = std::move(*static_cast<T*>(s.p.get())); };
    c.raise = [=] { throw *q; };
    return c;
}
static void boom(const std::string& what) {
    if(what == "rt") throw std::runtime_error("rt text");
    if(what == "empty") throw std::logic_error("");
    if(what == "std_like") throw ns::std_like{};
    if(what == "int") throw 5;
    if(what == "charptr") throw "a string";
    if(what == "plain") throw plain_thing{3};
    if(what == "tmpl") throw tmpl_thing<std::vector<int>>{};
    if(what == "string") throw std::string("str");
    if(what == "nullptr") throw nullptr;
    abort();
}
static std::exception_ptr cause_ptr(const std::string& what) { try { boom(what); } catch(...) { return std::current_exception(); } return {}; }

// construction sites
#define SITE(KIND, TYPE, ARGS) \
    NOINL static TYPE* site_##KIND(std::string arg, int code, const std::string& cause, raw_trace* given) { \
        (void)code; (void)cause; \
        if(given) return new TYPE ARGS##_GIVEN; \
        TYPE* r = (HERE, new TYPE ARGS); __asm__ volatile("" ::: "memory"); return r; \
    }
#define MSG (std::move(arg))
#define MSG_GIVEN (std::move(arg), std::move(*given))
#define NONE {}
#define NONE_GIVEN (std::move(*given))
#define SYS (code, std::move(arg))
#define SYS_GIVEN (code, std::move(arg), std::move(*given))
#define NEST (cause_ptr(cause))
#define NEST_GIVEN (cause_ptr(cause), std::move(*given))
SITE(logic, logic_error, MSG)
SITE(domain, domain_error, MSG)
SITE(invalid, invalid_argument, MSG)
SITE(length, length_error, MSG)
SITE(oor, out_of_range, MSG)
SITE(runtime, runtime_error, MSG)
SITE(range, range_error, MSG)
SITE(overflow, overflow_error, MSG)
SITE(underflow, underflow_error, MSG)
SITE(with_message, exception_with_message, MSG)
SITE(derived, derived, MSG)
SITE(derived_lazy, derived_lazy, MSG)
SITE(lazy, lazy_exception, NONE)
SITE(system, system_error, SYS)
SITE(nested, nested_exception, NEST)

NOINL static cell build(const std::string& kind, const std::string& arg, int code, const std::string& cause, raw_trace* given) {
    #define B(K, T) if(kind == #K) return mk<T>(kind, site_##K(arg, code, cause, given));
    B(logic, logic_error) B(domain, domain_error) B(invalid, invalid_argument) B(length, length_error) B(oor, out_of_range)
    B(runtime, runtime_error) B(range, range_error) B(overflow, overflow_error) B(underflow, underflow_error)
    B(with_message, exception_with_message) B(derived, derived) B(derived_lazy, derived_lazy) B(lazy, lazy_exception)
    B(system, system_error) B(nested, nested_exception)
    abort();
}
NOINL static void deep(int n, const std::function<void()>& f) {
    if(n == 0) f(); else deep(n - 1, f);
    __asm__ volatile("" ::: "memory");
}
// wrappers
NOINL static int body(const std::function<void()>& f) { f(); return 7; }
NOINL static void wrap_block(const std::function<void()>& f) { HERE; CPPTRACE_WRAP_BLOCK(f();); __asm__ volatile("" ::: "memory"); }
NOINL static int wrap_expr(const std::function<void()>& f) { HERE; int r = CPPTRACE_WRAP(body(f)); __asm__ volatile("" ::: "memory"); return r; }
NOINL static int wrap_nested(const std::function<void()>& f) { HERE; int r = 0; CPPTRACE_WRAP_BLOCK(CPPTRACE_WRAP_BLOCK(r = CPPTRACE_WRAP(body(f)););); r++; __asm__ volatile("" ::: "memory"); return r; }

static int find_origin(const stacktrace& t) {
    std::vector<frame_ptr> raw;
    std::vector<stacktrace_frame> top;
    for(auto& f : t.frames) {
        if(raw.empty()) top.push_back(f);
        if(!f.is_inline) raw.push_back(f.raw_address);
    }
    for(size_t i = 1; i < origins.size(); i++) {
        auto& o = origins[i];
        if(o.raw.size() != raw.size()) continue;
        if(!std::equal(raw.begin() + (o.exact || raw.empty() ? 0 : 1), raw.end(), o.raw.begin() + (o.exact || raw.empty() ? 0 : 1))) continue;
        if(!o.exact && !raw.empty()) {
            bool fn = false;
            for(auto& f : top) if(f.symbol.find(o.fn) != std::string::npos && (o.line == 0 || (f.line.has_value() && (int)f.line.value() == o.line))) fn = true;
            if(!fn) continue;
        }
        if(!(raw_trace{raw}.resolve().frames == t.frames)) return -(int)i; // not the resolved form
        return (int)i;
    }
    return 0;
}
static std::string sum(const stacktrace& t) { std::string s; for(auto& f : t.frames) s += f.symbol.substr(0, 40) + ":" + std::to_string(f.line.value_or(0)) + (f.is_inline ? "i" : "") + " | "; return s.substr(0, 400); }

static std::map<int, cell> cells;
static void answer(std::ostream& out, int id, const std::string& err, const std::string& rest) { out << "{\"id\":" << id << ",\"err\":" << mj::quote(err) << rest << "}\n" << std::flush; }

template<typename T> static const char* cat() { return std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? "const lvalue" : "lvalue") : std::is_rvalue_reference<T>::value ? "xvalue" : std::is_void<T>::value ? "void" : "prvalue"; }
struct mo { int v; mo(int v) : v(v) {} mo(mo&&) = default; mo(const mo&) = delete; };
static int fn_(int x) { return x; }
NOINL static int block_return() { CPPTRACE_WRAP_BLOCK(return 5;); return 6; }
#define CAT(...) ([&] { auto f = [&]() -> decltype(auto) { return CPPTRACE_WRAP(__VA_ARGS__); }; return cat<decltype(f())>(); }())
static std::vector<std::string> categories() {
    std::vector<std::string> r;
    int x = 3; const int y = 4; bool ran = false; int& rx = x; int arr[3] = {1, 2, 3}; struct { int m; } s{1};
    { auto&& v = CPPTRACE_WRAP(x); r.push_back(std::string(CAT(x)) + (&v == &x ? " same" : " other")); }
    { auto&& v = CPPTRACE_WRAP(y); r.push_back(std::string(CAT(y)) + (&v == &y ? " same" : " other")); }
    { int&& v = CPPTRACE_WRAP(std::move(x)); r.push_back(std::string(CAT(std::move(x))) + (&v == &x ? " same" : " other")); }
    r.push_back(std::string(CAT(x + y)) + " " + std::to_string(CPPTRACE_WRAP(x + y)));
    CPPTRACE_WRAP((void)(ran = true)); r.push_back(std::string(CAT((void)(ran = true))) + (ran ? " ran" : " did not run"));
    { mo m = CPPTRACE_WRAP(mo(9)); r.push_back("move-only " + std::to_string(m.v)); }
    { auto&& v = CPPTRACE_WRAP(rx); r.push_back(std::string(CAT(rx)) + (&v == &x ? " same" : " other")); }
    { auto& f = CPPTRACE_WRAP(fn_); r.push_back(std::string("function") + (&f == &fn_ ? " same" : " other")); }
    { auto&& v = CPPTRACE_WRAP(s.m); r.push_back(std::string("member") + (&v == &s.m ? " same" : " other")); }
    { int a = 12; r.push_back(std::string(CAT(a++)) + " " + std::to_string(CPPTRACE_WRAP(a++))); }
    ran = false; CPPTRACE_WRAP_BLOCK(ran = true;); r.push_back(ran ? "block ran" : "block did not run");
    r.push_back("block returned " + std::to_string(block_return()));
    { auto&& v = CPPTRACE_WRAP(arr[1]); r.push_back(std::string(CAT(arr[1])) + (&v == &arr[1] ? " same" : " other")); }
    return r;
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    int id = 0;
    while(std::getline(in, line)) {
        auto v = mj::parse(line);
        std::string op = v["op"].s, err, rest;
        int d = v.has("d") ? (int)v["d"].n : 0, s = v.has("s") ? (int)v["s"].n : 0;
        id++;
        try {
            if(op == "reset") { cells.clear(); origins.resize(1); }
            else if(op == "new") {
                origin o;
                std::string arg = v["rawarg"].s, kind = v["kind"].s, cause = v["cause"].s;
                int code = (int)v["code"].n, depth = (int)v["depth"].n;
                std::string given = v["given"].s;
                auto go = [&] {
                    deep(depth, [&] {
                        raw_trace g;
                        if(given == "empty") {} else if(given == "here") g = generate_raw_trace(); else if(given == "odd") g = raw_trace{{0, 1, 0x10, (frame_ptr)-1, (frame_ptr)&cells, (frame_ptr)&fn_ + 1}};
                        std::vector<frame_ptr> copy(g.frames);
                        cell c = build(kind, arg, code, cause, given.empty() ? nullptr : &g);
                        if(given.empty()) { o.raw = g_raw.frames; o.line = v.has("noline") ? 0 : g_line; o.fn = "site_" + kind; }
                        else { o.raw = copy; o.exact = true; }
                        cells[d] = std::move(c);
                    });
                };
                if(v["thread"].b) { std::thread t(go); t.join(); } else go();
                size_t at = 0;
                for(size_t i = 1; i < origins.size(); i++) if(o.exact && origins[i].exact && origins[i].raw == o.raw) at = i;
                if(!at) { origins.push_back(o); at = origins.size() - 1; }
                rest = ",\"org\":" + std::to_string(at);
            }
            else if(op == "copy") { cell c = cells.at(s).copy(); cells[d] = std::move(c); }
            else if(op == "move") { cell c = cells.at(s).move(); cells[d] = std::move(c); if(s != d) cells.erase(s); }
            else if(op == "assign") cells.at(d).assign(cells.at(s));
            else if(op == "massign") { cells.at(d).massign(cells.at(s)); if(s != d) cells.erase(s); }
            else if(op == "drop") cells.erase(d);
            else if(op == "throw" || op == "ptr" || op == "thread") {
                cell& src = cells.at(s);
                cell res; std::exception_ptr p;
                auto dup = [&](const cpptrace::exception& e) {
                    #define D(K, T) if(src.kind == #K) { res = mk<T>(src.kind, new T(dynamic_cast<const T&>(e))); return; }
                    D(logic, logic_error) D(domain, domain_error) D(invalid, invalid_argument) D(length, length_error) D(oor, out_of_range)
                    D(runtime, runtime_error) D(range, range_error) D(overflow, overflow_error) D(underflow, underflow_error)
                    D(with_message, exception_with_message) D(derived, ::derived) D(derived_lazy, ::derived_lazy) D(lazy, lazy_exception)
                    D(system, system_error) D(nested, nested_exception)
                    abort();
                };
                auto rethrow = [&] { try { std::rethrow_exception(p); } catch(const cpptrace::exception& e) { if(v["look"].b) e.what(); dup(e); } };
                if(op == "throw") { try { src.raise(); } catch(const cpptrace::exception& e) { dup(e); } catch(const std::exception&) { err = "not caught as cpptrace::exception"; } }
                else {
                    try { src.raise(); } catch(...) { p = std::current_exception(); }
                    if(op == "ptr") rethrow(); else { std::thread t(rethrow); t.join(); }
                    p = nullptr;
                }
                cells[d] = std::move(res);
            }
            else if(op == "message") {
                std::string m = cells.at(d).e->message();
                rest = ",\"msg\":" + mj::quote(m);
            }
            else if(op == "what") {
                std::string w = cells.at(d).e->what();
                if(w != std::string(static_cast<const std::exception*>(cells.at(d).e)->what())) err = "what() changes";
                cell c = cells.at(d).copy();
                auto& t = c.e->trace();
                std::string tail = ":\n" + t.to_string();
                int o = 0;
                if(w.size() >= tail.size() && w.compare(w.size() - tail.size(), tail.size(), tail) == 0) { o = find_origin(t); w = w.substr(0, w.size() - tail.size()); }
                rest = ",\"msg\":" + mj::quote(w) + ",\"org\":" + std::to_string(o);
                if(o <= 0) rest += ",\"seen\":" + mj::quote(sum(t));
            }
            else if(op == "trace") { auto& t = cells.at(d).e->trace(); int o = find_origin(t); rest = ",\"org\":" + std::to_string(o); if(o <= 0) rest += ",\"seen\":" + mj::quote(sum(t)); }
            else if(op == "code") {
                auto* q = dynamic_cast<const system_error*>(cells.at(d).e);
                if(q && q->code().category() != std::generic_category()) err = "category";
                if(q && q->code().message() != std::error_code(q->code().value(), std::generic_category()).message()) err = "text";
                rest = ",\"code\":" + std::to_string(q ? q->code().value() : 0);
            }
            else if(op == "cause") {
                std::string r;
                if(auto* q = dynamic_cast<const nested_exception*>(cells.at(d).e)) {
                    try { std::rethrow_exception(q->nested_ptr()); }
                    catch(std::runtime_error& e) { r = "rt"; if(std::string(e.what()) != "rt text") r = "rt changed"; }
                    catch(ns::std_like&) { r = "std_like"; } catch(std::logic_error&) { r = "empty"; } catch(int& i) { r = i == 5 ? "int" : "int changed"; }
                    catch(std::nullptr_t) { r = "nullptr"; } catch(const char*) { r = "charptr"; } catch(plain_thing& p) { r = p.x == 3 ? "plain" : "plain changed"; } catch(tmpl_thing<std::vector<int>>&) { r = "tmpl"; } catch(std::string&) { r = "string"; } catch(...) { r = "?"; }
                }
                rest = ",\"cause\":" + mj::quote(r);
            }
            else if(op == "wrap") {
                std::string form = v["form"].s, thrown = v["cause"].s;
                bool traced = v["traced"].b; int depth = (int)v["depth"].n;
                const void* addr = nullptr; const void* got = nullptr;
                cell res; origin o; bool caught = false;
                std::function<void()> f = [&] { if(traced) { try { cells.at(s).raise(); } catch(cpptrace::exception& e) { addr = dynamic_cast<void*>(&e); throw; } } else boom(thrown); };
                deep(depth, [&] {
                    try { if(form == "block") wrap_block(f); else if(form == "expr") wrap_expr(f); else wrap_nested(f); }
                    catch(cpptrace::exception& e) {
                        caught = true; got = dynamic_cast<void*>(&e);
                        if(auto* n = dynamic_cast<nested_exception*>(&e)) { res = mk<nested_exception>("nested", new nested_exception(*n)); }
                        if(traced) { 
                            #define E(K, T) if(cells.at(s).kind == #K) { if(auto* q = dynamic_cast<T*>(&e)) res = mk<T>(#K, new T(*q)); }
                            E(logic, logic_error) E(domain, domain_error) E(invalid, invalid_argument) E(length, length_error) E(oor, out_of_range)
                            E(runtime, runtime_error) E(range, range_error) E(overflow, overflow_error) E(underflow, underflow_error)
                            E(with_message, exception_with_message) E(derived, ::derived) E(derived_lazy, ::derived_lazy) E(lazy, lazy_exception)
                            E(system, system_error) E(nested, nested_exception) }
                    }
                });
                if(!caught) err = "wrapped exception is no cpptrace::exception";
                bool same = addr && got && addr == got;
                o.raw = g_raw.frames; o.fn = form == "block" ? "wrap_block" : form == "expr" ? "wrap_expr" : "wrap_nested";
                origins.push_back(o);
                cells[d] = std::move(res);
                rest = ",\"org\":" + std::to_string(origins.size() - 1) + ",\"same\":" + (same ? "true" : "false");
            }
            else if(op == "wrapok") {
                int r1 = 0, n = 0;
                r1 = CPPTRACE_WRAP(n++);
                if(r1 != 0 || n != 1) err = "evaluated " + std::to_string(n) + " times";
            }
            else if(op == "cat") { rest = ",\"cats\":["; bool first = true; for(auto& c : categories()) { if(!first) rest += ","; first = false; rest += mj::quote(c); } rest += "]"; }
            else abort();
        } catch(const std::exception& e) { err = std::string("exception: ") + e.what(); }
        answer(out, id, err, rest);
    }
}
