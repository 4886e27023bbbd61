// Minimal JSON reader/writer for the harnesses.
#ifndef MJSON_HPP
#define MJSON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace mj {
struct val {
    enum kind { null, boolean, num, str, arr, obj } k = null;
    bool b = false;
    long long n = 0;
    std::string s;
    std::vector<val> a;
    std::vector<std::pair<std::string, val>> o;
    const val* find(const std::string& key) const {
        for(auto& p : o) if(p.first == key) return &p.second;
        return nullptr;
    }
    const val& operator[](const std::string& key) const {
        auto* p = find(key);
        if(!p) throw std::runtime_error("json: no key " + key);
        return *p;
    }
    const val& operator[](const char* key) const { return (*this)[std::string(key)]; }
    const val& at(size_t i) const { return a.at(i); }
    size_t size() const { return a.size(); }
    bool has(const std::string& key) const { return find(key) != nullptr; }
};
struct parser {
    const char* p; const char* e;
    parser(const std::string& s) : p(s.data()), e(s.data() + s.size()) {}
    [[noreturn]] void fail(const char* w) { throw std::runtime_error(std::string("json: ") + w + " near: " + std::string(p, p + std::min<long>(30, e - p))); }
    void ws() { while(p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
    static void utf8(std::string& o, unsigned c) {
        if(c < 0x80) o += char(c);
        else if(c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if(c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    unsigned hex4() {
        if(e - p < 4) fail("hex");
        unsigned v = (unsigned)std::strtoul(std::string(p, p + 4).c_str(), nullptr, 16);
        p += 4;
        return v;
    }
    std::string string() {
        std::string o;
        p++;
        while(true) {
            if(p >= e) fail("string");
            char c = *p++;
            if(c == '"') return o;
            if(c == '\\') {
                char d = *p++;
                switch(d) {
                    case 'n': o += '\n'; break;
                    case 't': o += '\t'; break;
                    case 'r': o += '\r'; break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'u': {
                        unsigned c1 = hex4();
                        if(c1 >= 0xD800 && c1 < 0xDC00 && p + 1 < e && p[0] == '\\' && p[1] == 'u') {
                            p += 2;
                            unsigned c2 = hex4();
                            c1 = 0x10000 + ((c1 - 0xD800) << 10) + (c2 - 0xDC00);
                        }
                        utf8(o, c1);
                        break;
                    }
                    default: o += d;
                }
            } else o += c;
        }
    }
    val value() {
        ws();
        if(p >= e) fail("eof");
        val v;
        if(*p == '{') {
            v.k = val::obj; p++; ws();
            if(*p == '}') { p++; return v; }
            while(true) {
                ws();
                std::string key = string();
                ws();
                if(*p != ':') fail("colon");
                p++;
                v.o.emplace_back(key, value());
                ws();
                if(*p == ',') { p++; continue; }
                if(*p == '}') { p++; return v; }
                fail("object");
            }
        }
        if(*p == '[') {
            v.k = val::arr; p++; ws();
            if(*p == ']') { p++; return v; }
            while(true) {
                v.a.push_back(value());
                ws();
                if(*p == ',') { p++; continue; }
                if(*p == ']') { p++; return v; }
                fail("array");
            }
        }
        if(*p == '"') { v.k = val::str; v.s = string(); return v; }
        if(*p == 't') { v.k = val::boolean; v.b = true; p += 4; return v; }
        if(*p == 'f') { v.k = val::boolean; p += 5; return v; }
        if(*p == 'n') { p += 4; return v; }
        char* end;
        v.k = val::num;
        v.n = std::strtoll(p, &end, 10);
        if(end == p) fail("value");
        p = end;
        return v;
    }
};
inline val parse(const std::string& s) { parser p(s); return p.value(); }
inline std::string quote(const std::string& s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"') o += "\\\"";
        else if(c == '\\') o += "\\\\";
        else if(c == '\n') o += "\\n";
        else if(c < 0x20 || c == 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
// every byte >= 0x80 written as the code point of that value, so that arbitrary bytes survive
inline std::string quote_bytes(const std::string& s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"') o += "\\\"";
        else if(c == '\\') o += "\\\\";
        else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
}
#endif
