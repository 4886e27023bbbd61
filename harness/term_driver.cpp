// Ends itself in a given way: term TYPE CAUSE MSG OPTS. What is about to kill it is written to descriptor NOTE_FD first.
#include <cpptrace/cpptrace.hpp>
#include <cxxabi.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <vector>
#include "mjson.hpp"
#define NI __attribute__((noinline))
static std::string msg;
static std::string type_arg, cause;

struct my_traced : cpptrace::exception_with_message { using exception_with_message::exception_with_message; };
struct my_lazy : cpptrace::lazy_exception { const char* message() const noexcept override { return msg.c_str(); } };
struct tag { int x = 1; virtual ~tag() {} };
struct mixed : tag, cpptrace::runtime_error { mixed(std::string s) : cpptrace::runtime_error(std::move(s)) {} };
struct my_std : std::logic_error { using std::logic_error::logic_error; };
struct deep_std : my_std { using my_std::my_std; };
template <typename T, int N> struct templ : std::runtime_error { using std::runtime_error::runtime_error; };
namespace { struct anon : std::runtime_error { using std::runtime_error::runtime_error; }; struct anon_plain { int x; }; }
struct private_std : private std::runtime_error { private_std(const std::string& s) : std::runtime_error(s) {} };
struct left_std : std::exception {}; struct right_std : std::exception {};
struct twice_std : left_std, right_std {};
struct vleft : virtual std::exception {}; struct vright : virtual std::exception {};
struct virt_std : vleft, vright { const char* what() const noexcept override { return msg.c_str(); } };
struct tag_std : tag, std::exception { const char* what() const noexcept override { return msg.c_str(); } };
struct plain { int a; }; template <typename T> struct box { T v; };
enum class color { red };
struct private_traced : private cpptrace::runtime_error { private_traced(std::string s) : cpptrace::runtime_error(std::move(s)) {} };

static void note(const char* mangled, const std::string& m) {
    int st; char* d = abi::__cxa_demangle(mangled, nullptr, nullptr, &st);
    std::string s = "{\"type\":" + mj::quote(st == 0 ? d : mangled) + ",\"msg\":" + mj::quote(m) + "}";
    std::free(d);
    (void)!write(atoi(getenv("NOTE_FD")), s.data(), s.size());
}
template <typename E> static const char* mangled_of(const E& e) { return typeid(e).name(); }
template <typename E> [[noreturn]] static void go(E e, const std::string& m) __attribute__((noinline));
template <typename E> [[noreturn]] static void go(E e, const std::string& m) { note(mangled_of(e), m); throw e; }
#define TRACED(T, ...) if(type_arg == #T || (#T)[0] == '\0') { T e{__VA_ARGS__}; go(e, e.message()); }
#define STD(N, T, ...) if(type_arg == N) { T e{__VA_ARGS__}; go(e, e.what()); }
#define OTHER(N, T, ...) if(type_arg == N) { T e{__VA_ARGS__}; go(e, ""); }
static std::exception_ptr inner() { try { throw std::runtime_error("inner one"); } catch(...) { return std::current_exception(); } }
NI static void site() {
    #define T1(N, T, ...) if(type_arg == N) { T e{__VA_ARGS__}; go(e, e.message()); }
    T1("t_runtime", cpptrace::runtime_error, std::string(msg)) T1("t_logic", cpptrace::logic_error, std::string(msg)) T1("t_range", cpptrace::range_error, std::string(msg))
    T1("t_system", cpptrace::system_error, 2, std::string(msg)) T1("t_nested", cpptrace::nested_exception, inner()) T1("t_user", my_traced, std::string(msg))
    T1("t_lazy", my_lazy) T1("t_mixed", mixed, msg) T1("t_message", cpptrace::exception_with_message, std::string(msg))
    STD("s_runtime", std::runtime_error, msg) STD("s_user", my_std, msg) STD("s_deep", deep_std, msg) if(type_arg == "s_templ") { templ<std::vector<int>, 3> e{msg}; go(e, e.what()); }
    STD("s_anon", anon, msg) STD("s_virtual", virt_std) STD("s_tag", tag_std) STD("s_bad_alloc", std::bad_alloc) STD("s_system", std::system_error, std::make_error_code(std::errc::invalid_argument), msg)
    OTHER("o_int", int, 5) OTHER("o_cstr", const char*, msg.c_str()) OTHER("o_string", std::string, msg) OTHER("o_plain", plain, 1) OTHER("o_box", box<box<long>>, {{3}})
    OTHER("o_enum", color, color::red) OTHER("o_anon", anon_plain, 1) OTHER("o_private", private_std, msg) OTHER("o_twice", twice_std) OTHER("o_private_traced", private_traced, msg)
    OTHER("o_ptr", std::shared_ptr<std::exception>, std::make_shared<std::runtime_error>(msg))
    if(type_arg == "o_lambda") { auto l = [] (int) {}; go(l, ""); }
    if(type_arg == "o_null") { std::nullptr_t n = nullptr; go(n, ""); }
    if(type_arg == "o_eptr") { static std::runtime_error r(msg); go(&r, ""); }
    _exit(98);
}
NI static void middle() { site(); asm volatile(""); }
static std::exception_ptr stored;
NI static void maker() { try { middle(); } catch(...) { stored = std::current_exception(); } asm volatile(""); }
NI static void shield() noexcept { middle(); asm volatile(""); }
struct guard { NI ~guard() { middle(); } };
NI static void unwinding() { guard g; throw 1; }
NI static void final_point() { std::terminate(); }
struct pure { pure() { call(); } NI void call() { f(); } virtual void f() = 0; virtual ~pure() {} };
struct impl : pure { void f() override {} };
NI static void outer() {
    if(cause == "uncaught" || cause == "thread" || cause == "atexit" || cause == "static") { middle(); }
    else if(cause == "noexcept") { shield(); }
    else if(cause == "terminate") { final_point(); }
    else if(cause == "in_catch") { try { middle(); } catch(...) { final_point(); } }
    else if(cause == "rethrow_none") { throw; }
    else if(cause == "dtor") { try { unwinding(); } catch(...) {} }
    else if(cause == "nested") { try { throw std::runtime_error("an earlier one"); } catch(...) { middle(); } }
    else if(cause == "after_caught") { try { throw std::runtime_error("an earlier one"); } catch(...) {} try { throw cpptrace::logic_error("another"); } catch(std::exception&) {} middle(); }
    else if(cause == "rethrown") { try { middle(); } catch(...) { throw; } }
    else if(cause == "stored") { maker(); std::rethrow_exception(stored); }
    else if(cause == "joinable") { std::thread t([] { for(;;) pause(); }); }
    else if(cause == "pure") { impl i; }
    asm volatile("");
}
NI static void thread_main() { outer(); asm volatile(""); }
static void at_exit() { outer(); asm volatile(""); }
struct starter { starter() { if(const char* a = getenv("TERM_STATIC")) (void)a; } };
static void setup(char** argv) {
    type_arg = argv[1]; cause = argv[2];
    static const char* msgs[] = {"", "a plain Xq7 message", "100% {} %s {0} Xq7 %n", "two\nlines Xq7\n", "caf\xc3\xa9 Xq7"};
    int m = atoi(argv[3]);
    if(m < 5) msg = msgs[m]; else { msg = "Xq7"; for(int i = 0; i < 3000; i++) msg += " long{}"; }
    std::string opts = argv[4];
    if(opts.find('u') != std::string::npos) std::set_terminate([] { _exit(77); });
    cpptrace::register_terminate_handler();
    if(opts.find('2') != std::string::npos) cpptrace::register_terminate_handler();
    if(opts.find('a') != std::string::npos) cpptrace::absorb_trace_exceptions(false);
    if(opts.find('s') != std::string::npos) std::ios::sync_with_stdio(false);
    if(opts.find('o') != std::string::npos) std::cerr << std::hex << std::showbase;
    std::cout << "said before" << std::endl;
}
static char** saved_argv;
__attribute__((constructor(65000))) static void early(int argc, char** argv, char**) { saved_argv = argv; (void)argc; }
struct late_static {
    NI late_static() { if(saved_argv && saved_argv[1] && std::strcmp(saved_argv[2], "static") == 0) { setup(saved_argv); outer(); } }
};
static late_static ls; // after everything above
int main(int, char** argv) {
    setup(argv);
    if(cause == "thread") { std::thread t(thread_main); t.join(); }
    else if(cause == "atexit") { std::atexit(at_exit); return 0; }
    else outer();
    return 99;
}
