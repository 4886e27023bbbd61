// Interprets formatter programs: each input line is {"ops":[...]}, each output line {"ops":[results of "call" ops]}.
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include "mjson.hpp"
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <unistd.h>
using namespace cpptrace;
static std::vector<std::string> events;
static std::string hex(frame_ptr p) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)p); return b; }
static void note(const char* k, const stacktrace_frame& f) { events.push_back(std::string(k) + ":" + hex(f.raw_address) + ":" + f.symbol); }
static nullable<std::uint32_t> num(const std::string& s) {
    if(s.empty()) return nullable<std::uint32_t>::null();
    return nullable<std::uint32_t>{(std::uint32_t)strtoul(s.c_str(), nullptr, 10)};
}
static stacktrace_frame mkframe(const mj::val& v) {
    return {(frame_ptr)strtoull(v["raw"].s.c_str(), nullptr, 16), (frame_ptr)strtoull(v["obj"].s.c_str(), nullptr, 16),
        num(v["line"].s), num(v["col"].s), v["file"].s, v["sym"].s, v["inl"].b};
}
static std::function<stacktrace_frame(stacktrace_frame)> mktransform(const std::string& n) {
    if(n == "none") return {};
    return [n](stacktrace_frame f) {
        note("t", f);
        if(n == "bang") f.symbol += "!";
        else if(n == "nofile") f.filename.clear();
        else if(n == "nosym") f.symbol.clear();
        else if(n == "swap") std::swap(f.raw_address, f.object_address);
        else if(n == "noline") { f.line.reset(); f.column.reset(); }
        else if(n == "inline") f.is_inline = true;
        else if(n == "throwname") f.symbol = "__cxa_throw";
        else abort();
        return f;
    };
}
static bool ends_bang(const std::string& s) { return !s.empty() && s.back() == '!'; }
static std::function<bool(const stacktrace_frame&)> mkfilter(const std::string& n) {
    if(n == "none") return {};
    return [n](const stacktrace_frame& f) -> bool {
        note("f", f);
        if(n == "all") return true;
        if(n == "nothing") return false;
        if(n == "sym") return !f.symbol.empty();
        if(n == "bang") return ends_bang(f.symbol);
        if(n == "noinline") return !f.is_inline;
        if(n == "line") return f.line.has_value();
        if(n == "file") return !f.filename.empty();
        if(n == "notmain") return f.symbol != "main";
        abort();
    };
}
static void set(formatter& f, const std::string& key, const mj::val& v) {
    if(key == "header") f.header(v.s);
    else if(key == "colors") f.colors(v.s == "always" ? formatter::color_mode::always : v.s == "none" ? formatter::color_mode::none : formatter::color_mode::automatic);
    else if(key == "addr") f.addresses(v.s == "raw" ? formatter::address_mode::raw : v.s == "object" ? formatter::address_mode::object : formatter::address_mode::none);
    else if(key == "paths") f.paths(v.s == "full" ? formatter::path_mode::full : formatter::path_mode::basename);
    else if(key == "snippets") f.snippets(v.b);
    else if(key == "ctx") f.snippet_context((int)v.n);
    else if(key == "columns") f.columns(v.b);
    else if(key == "symbols") f.symbols(v.s == "full" ? formatter::symbol_mode::full : v.s == "pretty" ? formatter::symbol_mode::pretty : formatter::symbol_mode::pruned);
    else if(key == "placeholders") f.filtered_frame_placeholders(v.b);
    else if(key == "filter") f.filter(mkfilter(v.s));
    else if(key == "transform") f.transform(mktransform(v.s));
    else if(key == "brk") f.break_before_filename(v.b);
    else if(key == "hide") f.hide_exception_machinery(v.b);
    else abort();
}
// run `f` with fd 1 redirected to a terminal or a file and return what was written
template<typename F> std::string with_stdout(bool tty, F f) {
    std::cout.flush(); fflush(stdout);
    int saved = dup(1);
    std::string out;
    if(tty) {
        int m, s;
        if(openpty(&m, &s, nullptr, nullptr, nullptr) != 0) { close(saved); throw std::runtime_error("nopty"); }
        termios t; tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t);
        std::thread reader([&] { char b[4096]; ssize_t n; while((n = read(m, b, sizeof b)) > 0) out.append(b, n); });
        dup2(s, 1); close(s);
        f();
        std::cout.flush(); fflush(stdout);
        tcdrain(1);
        dup2(saved, 1); close(saved);
        reader.join(); close(m);
    } else {
        FILE* t = tmpfile();
        dup2(fileno(t), 1);
        f();
        std::cout.flush(); fflush(stdout);
        dup2(saved, 1); close(saved);
        rewind(t); char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, t)) > 0) out.append(b, n);
        fclose(t);
    }
    return out;
}
template<typename F> std::string with_file(F f) {
    FILE* t = tmpfile();
    f(t);
    std::string out; rewind(t); char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, t)) > 0) out.append(b, n);
    fclose(t);
    return out;
}
static std::string call(const formatter& f, const mj::val& op) {
    const auto& q = op["q"];
    stacktrace t;
    for(auto& v : op["frames"].a) t.frames.push_back(mkframe(v));
    const std::string via = q["via"].s;
    int over = (int)q["over"].n;
    bool tty = q["tty"].b, frame = q["what"].s == "frame";
    size_t indent = (size_t)q["indent"].n;
    if(via == "format") {
        if(frame) return indent ? f.format(t.frames[0], over == 1, indent) : over < 0 ? f.format(t.frames[0]) : f.format(t.frames[0], over == 1);
        return over < 0 ? f.format(t) : f.format(t, over == 1);
    }
    if(via == "ostream") {
        std::ostringstream s;
        if(frame) indent ? f.print(s, t.frames[0], over == 1, indent) : over < 0 ? f.print(s, t.frames[0]) : f.print(s, t.frames[0], over == 1);
        else over < 0 ? f.print(s, t) : f.print(s, t, over == 1);
        return s.str();
    }
    if(via == "file") {
        return with_file([&](FILE* s) {
            if(frame) indent ? f.print(s, t.frames[0], over == 1, indent) : over < 0 ? f.print(s, t.frames[0]) : f.print(s, t.frames[0], over == 1);
            else over < 0 ? f.print(s, t) : f.print(s, t, over == 1);
        });
    }
    if(via == "cout") {
        return with_stdout(tty, [&] {
            if(frame) indent ? f.print(std::cout, t.frames[0], over == 1, indent) : over < 0 ? f.print(t.frames[0]) : f.print(t.frames[0], over == 1);
            else over < 0 ? f.print(t) : f.print(t, over == 1);
        });
    }
    // the members of stacktrace and stacktrace_frame that format (always with the default options)
    if(via == "to_string") return frame ? (over < 0 ? t.frames[0].to_string() : t.frames[0].to_string(over == 1)) : (over < 0 ? t.to_string() : t.to_string(over == 1));
    if(via == "stream_op") { std::ostringstream s; if(frame) s << t.frames[0]; else s << t; return s.str(); }
    if(via == "print_member") { std::ostringstream s; over < 0 ? t.print(s) : t.print(s, over == 1); return s.str(); }
    if(via == "print_member_cout") return with_stdout(tty, [&] { t.print(); });
    if(via == "snippets_member") { std::ostringstream s; over < 0 ? t.print_with_snippets(s) : t.print_with_snippets(s, over == 1); return s.str(); }
    if(via == "snippets_member_cout") return with_stdout(tty, [&] { t.print_with_snippets(); });
    abort();
}
int main(int argc, char** argv) {
    std::string mode = argv[1];
    std::ifstream in(argv[2]);
    std::ofstream out(argv[3]);
    std::string line;
    if(mode == "syms") {
        while(std::getline(in, line)) {
            auto v = mj::parse(line);
            out << "{\"s\":" << mj::quote(v["s"].s) << ",\"pruned\":" << mj::quote(prune_symbol(v["s"].s)) << ",\"pretty\":" << mj::quote(prettify_symbol(v["s"].s)) << "}\n";
        }
        return 0;
    }
    if(mode == "snippets") {
        while(std::getline(in, line)) {
            auto v = mj::parse(line);
            std::string r;
            // overloads with and without a column
            if(v["col"].n < 0 && v["ov"].n == 0) r = get_snippet(v["file"].s, (size_t)v["line"].n, (size_t)v["ctx"].n, v["color"].b);
            else r = get_snippet(v["file"].s, (size_t)v["line"].n, v["col"].n < 0 ? nullable<std::uint32_t>::null() : nullable<std::uint32_t>{(std::uint32_t)v["col"].n}, (size_t)v["ctx"].n, v["color"].b);
            out << mj::quote_bytes(r) << "\n" << std::flush;
        }
        return 0;
    }
    while(std::getline(in, line)) {
        auto v = mj::parse(line);
        std::vector<std::unique_ptr<formatter>> slot(4);
        std::string res = "[";
        bool first = true;
        for(auto& op : v["ops"].a) {
            const std::string& k = op["op"].s;
            int d = (int)op["d"].n;
            if(k == "new") slot[d].reset(new formatter);
            else if(k == "set") set(*slot[d], op["key"].s, op["val"]);
            else if(k == "copy") slot[d].reset(new formatter(*slot[op["s"].n]));
            else if(k == "move") slot[d].reset(new formatter(std::move(*slot[op["s"].n])));
            else if(k == "assign") *slot[d] = *slot[op["s"].n];
            else if(k == "massign") *slot[d] = std::move(*slot[op["s"].n]);
            else if(k == "call") {
                events.clear();
                std::string o = call(d < 0 ? get_default_formatter() : *slot[d], op);
                res += std::string(first ? "" : ",") + "{\"out\":" + mj::quote(o) + ",\"ev\":[";
                for(size_t i = 0; i < events.size(); i++) res += (i ? "," : "") + mj::quote(events[i]);
                res += "]}";
                first = false;
            } else abort();
        }
        out << res << "]\n" << std::flush;
    }
}
