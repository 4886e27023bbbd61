// Drives the JIT object registry. Commands on stdin-like file, one answer line per "q".
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/gdb_jit.hpp>
#include "jit/jit_objects.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using namespace cpptrace;
namespace cpptrace { namespace detail { extern "C" { jit_descriptor __jit_debug_descriptor = {1, 0, nullptr, nullptr}; } } }
struct slot { char* p = nullptr; size_t n = 0; };
static std::map<int, slot> slots;
static std::map<int, std::string> images;
static std::string unhex(const std::string& h) {
    std::string o;
    for(size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return o;
}
static void drop(int s) { auto it = slots.find(s); if(it != slots.end()) { if(it->second.p) { memset(it->second.p, 0xEE, it->second.n); delete[] it->second.p; } slots.erase(it); } }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while(std::getline(in, line)) {
        std::istringstream ss(line);
        std::string op;
        ss >> op;
        std::string err;
        try {
            if(op == "img") { int id; std::string h; ss >> id >> h; images[id] = unhex(h); }
            else if(op == "reset") { clear_all_jit_objects(); while(!slots.empty()) drop(slots.begin()->first); }
            else if(op == "put") { int s, id; ss >> s >> id; drop(s); auto& b = images.at(id); slot n; n.n = b.size(); n.p = new char[b.size()]; memcpy(n.p, b.data(), b.size()); slots[s] = n; }
            else if(op == "free") { int s; ss >> s; drop(s); }
            else if(op == "reg") { int s; ss >> s; register_jit_object(slots.at(s).p, slots.at(s).n); }
            else if(op == "unreg") { int s; ss >> s; unregister_jit_object(slots.at(s).p); }
            else if(op == "unregmid") { int s, d; ss >> s >> d; unregister_jit_object(slots.at(s).p + d); }
            else if(op == "unregnull") unregister_jit_object(nullptr);
            else if(op == "regnull") register_jit_object(nullptr, 0);
            else if(op == "clear") clear_all_jit_objects();
            else if(op == "absorb") { int b; ss >> b; absorb_trace_exceptions(b); }
            else if(op == "gdb") {
                std::vector<detail::jit_code_entry> es; int s;
                while(ss >> s) es.push_back({nullptr, nullptr, slots.at(s).p, slots.at(s).n});
                for(size_t i = 0; i < es.size(); i++) { es[i].next_entry = i + 1 < es.size() ? &es[i + 1] : nullptr; es[i].prev_entry = i ? &es[i - 1] : nullptr; }
                detail::__jit_debug_descriptor.first_entry = es.empty() ? nullptr : es.data();
                experimental::register_jit_objects_from_gdb_jit_interface();
                detail::__jit_debug_descriptor.first_entry = nullptr;
            }
            else if(op == "q") {
                std::string h;
                while(ss >> h) {
                    frame_ptr pc = std::stoull(h, nullptr, 16);
                    auto r = detail::lookup_jit_object(pc);
                    if(!r) out << "- ";
                    else {
                        std::string s = r.unwrap().object.lookup_symbol(pc - r.unwrap().base).value_or("");
                        out << std::hex << r.unwrap().base << std::dec << "," << s << " ";
                    }
                }
            }
            else abort();
        } catch(std::exception& e) { err = e.what(); }
        if(!err.empty()) { for(auto& ch : err) if(ch == ' ' || ch == '\n') ch = '_'; out << "! " << err; }
        out << "\n" << std::flush;
    }
}
