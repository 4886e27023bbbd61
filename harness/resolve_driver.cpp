// Resolves addresses of loaded objects. Commands, one per line on stdin; one JSON line each on stdout.
//   load PATH LIB NS      dlopen (NS = 0) or dlmopen into a new namespace; prints the handle's index
//   close I
//   layout                every loaded object: name, bias, segments
//   marks I               call sites and data of a fixture object (-1: the executable itself)
//   jit                   an anonymous executable page
//   mode M                cache mode
//   resolve HEX...        the frames obtained in every way
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <ctrace/ctrace.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "mjson.hpp"

struct fix_mark { const void* pc; int line; const char* func; int outer_line; const char* outer; };
extern "C" const fix_mark* fix_marks_exe(int*);
extern "C" const void* fix_data_exe(int);
static std::string hex(std::uintptr_t x) { char b[32]; std::snprintf(b, sizeof b, "\"%lx\"", (unsigned long)x); return b; }

static std::string frame(const cpptrace::stacktrace_frame& f) {
    std::ostringstream o;
    o << "{\"raw\":" << hex(f.raw_address) << ",\"obj\":" << hex(f.object_address) << ",\"line\":";
    if(f.line.has_value()) o << f.line.value(); else o << -1;
    o << ",\"col\":";
    if(f.column.has_value()) o << f.column.value(); else o << -1;
    o << ",\"file\":" << mj::quote(f.filename) << ",\"sym\":" << mj::quote(f.symbol) << ",\"inl\":" << (f.is_inline ? "true" : "false") << "}";
    return o.str();
}
static std::string frames(const std::vector<cpptrace::stacktrace_frame>& v) {
    std::string s = "[";
    for(auto& f : v) s += (s.size() > 1 ? "," : "") + frame(f);
    return s + "]";
}
static std::string frame(const cpptrace::object_frame& f) {
    return "{\"raw\":" + hex(f.raw_address) + ",\"obj\":" + hex(f.object_address) + ",\"path\":" + mj::quote(f.object_path) + "}";
}
static std::string frames(const std::vector<cpptrace::object_frame>& v) {
    std::string s = "[";
    for(auto& f : v) s += (s.size() > 1 ? "," : "") + frame(f);
    return s + "]";
}
struct handle { void* h; std::string lib; };
static std::vector<handle> handles;

static int object(dl_phdr_info* i, size_t, void* out) {
    auto& s = *static_cast<std::string*>(out);
    s += (s.empty() ? "" : ",");
    s += "{\"name\":" + mj::quote(i->dlpi_name ? i->dlpi_name : "") + ",\"bias\":" + hex(i->dlpi_addr) + ",\"segs\":[";
    bool first = true;
    for(int n = 0; n < i->dlpi_phnum; n++) {
        if(i->dlpi_phdr[n].p_type != PT_LOAD) continue;
        s += (first ? "" : ",");
        s += "[" + hex(i->dlpi_addr + i->dlpi_phdr[n].p_vaddr) + "," + hex(i->dlpi_addr + i->dlpi_phdr[n].p_vaddr + i->dlpi_phdr[n].p_memsz) + "]";
        first = false;
    }
    s += "]}";
    return 0;
}

int main() {
    cpptrace::absorb_trace_exceptions(true);
    std::string line;
    while(std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if(op == "load") {
            std::string path, lib; int ns;
            in >> std::quoted(path) >> lib >> ns;
            void* h = ns ? dlmopen(LM_ID_NEWLM, path.c_str(), RTLD_NOW) : dlopen(path.c_str(), RTLD_NOW);
            if(!h) { std::printf("{\"error\":%s}\n", mj::quote(dlerror()).c_str()); }
            else { handles.push_back({h, lib}); std::printf("{\"i\":%zu}\n", handles.size() - 1); }
        } else if(op == "close") {
            std::size_t i; in >> i;
            std::printf("{\"r\":%d}\n", dlclose(handles[i].h));
            handles[i].h = nullptr;
        } else if(op == "layout") {
            std::string s;
            dl_iterate_phdr(object, &s);
            // objects of other namespaces are not listed there
            for(auto& h : handles) {
                if(!h.h) continue;
                link_map* m = nullptr;
                Lmid_t id = 0;
                if(dlinfo(h.h, RTLD_DI_LMID, &id) == 0 && id != LM_ID_BASE && dlinfo(h.h, RTLD_DI_LINKMAP, &m) == 0 && m) {
                    ElfW(Addr) bias = m->l_addr;
                    Dl_info info{};
                    dladdr(m->l_ld, &info);
                    auto* eh = static_cast<ElfW(Ehdr)*>(info.dli_fbase);
                    dl_phdr_info pi{};
                    pi.dlpi_addr = bias; pi.dlpi_name = m->l_name;
                    pi.dlpi_phdr = reinterpret_cast<ElfW(Phdr)*>(static_cast<char*>(info.dli_fbase) + eh->e_phoff);
                    pi.dlpi_phnum = eh->e_phnum;
                    object(&pi, sizeof pi, &s);
                }
            }
            std::printf("{\"objs\":[%s]}\n", s.c_str());
        } else if(op == "marks") {
            int i; in >> i;
            auto marks = i < 0 ? fix_marks_exe : (const fix_mark* (*)(int*)) dlsym(handles[i].h, ("fix_marks_" + handles[i].lib).c_str());
            auto data = i < 0 ? fix_data_exe : (const void* (*)(int)) dlsym(handles[i].h, ("fix_data_" + handles[i].lib).c_str());
            int n = 0;
            auto* t = marks(&n);
            std::string s;
            for(int m = 0; m < n; m++)
                s += std::string(m ? "," : "") + "{\"pc\":" + hex((std::uintptr_t) t[m].pc) + ",\"line\":" + std::to_string(t[m].line) + ",\"func\":" +
                    mj::quote(t[m].func) + ",\"oline\":" + std::to_string(t[m].outer_line) + ",\"outer\":" + mj::quote(t[m].outer) + "}";
            std::printf("{\"marks\":[%s],\"data\":%s,\"text\":%s}\n", s.c_str(), hex((std::uintptr_t) data(0)).c_str(), hex((std::uintptr_t) data(1)).c_str());
        } else if(op == "jit") {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            std::printf("{\"pc\":%s}\n", hex((std::uintptr_t) p).c_str());
        } else if(op == "mode") {
            int m; in >> m;
            cpptrace::experimental::set_cache_mode(m == 0 ? cpptrace::cache_mode::prioritize_memory : m == 1 ? cpptrace::cache_mode::hybrid : cpptrace::cache_mode::prioritize_speed);
            std::printf("{}\n");
        } else if(op == "resolve") {
            cpptrace::raw_trace raw;
            std::string h;
            while(in >> h) raw.frames.push_back(std::strtoul(h.c_str(), nullptr, 16));
            auto direct = raw.resolve();
            auto objects = raw.resolve_object_trace();
            auto via = objects.resolve();
            std::vector<cpptrace::object_frame> single;
            for(auto& f : direct.frames) if(!f.is_inline) single.push_back(f.get_object_info());
            std::printf("{\"direct\":%s,\"objf\":%s,\"via\":%s,\"single\":%s}\n", frames(direct.frames).c_str(), frames(objects.frames).c_str(),
                        frames(via.frames).c_str(), frames(single).c_str());
        }
        std::fflush(stdout);
    }
}
