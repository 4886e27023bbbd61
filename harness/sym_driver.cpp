// Answers symbol questions. Input lines: {"f": function, "s": text}; output lines: the answer as a JSON string.
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
#include <fstream>
#include <iostream>
#include "mjson.hpp"
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    auto with_symbols = [](cpptrace::formatter::symbol_mode m, const std::string& s) {
        cpptrace::formatter f;
        f.addresses(cpptrace::formatter::address_mode::none).colors(cpptrace::formatter::color_mode::none).symbols(m);
        cpptrace::stacktrace_frame fr{};
        fr.symbol = s;
        return f.format(fr);
    };
    while(std::getline(in, line)) {
        auto v = mj::parse(line);
        std::string f = v["f"].s, s = v["s"].s, r;
        if(f == "prune") r = cpptrace::prune_symbol(s);
        else if(f == "pretty") r = cpptrace::prettify_symbol(s);
        else if(f == "demangle") r = cpptrace::demangle(s);
        else if(f == "basename") r = cpptrace::basename(s);
        else if(f == "fprune") r = with_symbols(cpptrace::formatter::symbol_mode::pruned, s);
        else if(f == "fpretty") r = with_symbols(cpptrace::formatter::symbol_mode::pretty, s);
        out << mj::quote(r) << "\n" << std::flush;
    }
}
