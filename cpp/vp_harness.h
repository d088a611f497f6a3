// Line protocol driver: one request per line (command + numbers), one JSON reply per line.
// stdout/stderr of the code under test are kept apart from the replies.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace vph {
struct In {
    std::vector<std::string> tok; size_t p = 1;
    const std::string& next() { if (p >= tok.size()) throw std::runtime_error("VPH: short request"); return tok[p++]; }
    bool more() const { return p < tok.size(); }
    int i() { return (int)strtol(next().c_str(), nullptr, 10); }
    double d() { return strtod(next().c_str(), nullptr); }
    std::string s() { return next(); }
    std::vector<int> iv() { int n = i(); std::vector<int> v(n); for (auto& x : v) x = i(); return v; }
    std::vector<double> dv() { int n = i(); std::vector<double> v(n); for (auto& x : v) x = d(); return v; }
};
struct Out {
    std::string buf; bool first = true;
    void sep() { if (!first) buf += ','; first = false; }
    void put(int x) { sep(); buf += std::to_string(x); }
    void put(long x) { sep(); buf += std::to_string(x); }
    void put(size_t x) { sep(); buf += std::to_string(x); }
    void put(bool x) { sep(); buf += x ? "true" : "false"; }
    void put(double x) { sep(); if (std::isnan(x)) { buf += "NaN"; return; } if (std::isinf(x)) { buf += x > 0 ? "Infinity" : "-Infinity"; return; }
        char b[40]; snprintf(b, 40, "%.17g", x); buf += b; }
    void put(float x) { put((double)x); }
    void put(const std::string& s) { sep(); buf += '"'; for (char c : s) { if (c == '"' || c == '\\') { buf += '\\'; buf += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); buf += b; } else buf += c; } buf += '"'; }
    void put(const char* s) { put(std::string(s)); }
    void open() { sep(); buf += '['; first = true; }
    void close() { buf += ']'; first = false; }
    template <class T> void arr(const T* p, size_t n) { open(); for (size_t k = 0; k < n; k++) put((T)p[k]); close(); }
    template <class T> void put(const std::vector<T>& v) { open(); for (const auto& x : v) put((T)x); close(); }
    template <class T> void put2(T** p, size_t n, size_t m) { open(); for (size_t k = 0; k < n; k++) arr(p[k], m); close(); }
};
typedef void (*Fn)(In&, Out&);
inline std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }
struct Reg { Reg(const char* n, Fn f) { table()[n] = f; } };
// run f with stdout captured into a string
inline std::string captured(const std::function<void()>& f) {
    fflush(stdout); std::cout.flush();
    int keep = dup(1); FILE* t = tmpfile(); dup2(fileno(t), 1);
    f();
    fflush(stdout); std::cout.flush();
    dup2(keep, 1); close(keep);
    std::string s; rewind(t); char b[4096]; size_t n; while ((n = fread(b, 1, 4096, t)) > 0) s.append(b, n); fclose(t);
    return s;
}
inline long heap() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
// one request per line; "leak" answers how many heap bytes the previous request left allocated
inline int run() {
    long left = 0;
    FILE* rep = fdopen(dup(1), "w");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        In in; { char* save; for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(nullptr, " \n", &save)) in.tok.emplace_back(t); }
        if (in.tok.empty()) continue;
        if (in.tok[0] == "leak") { fprintf(rep, "[%ld]\n", left); fflush(rep); continue; }
        Out out; std::string r;
        long before = heap();
        auto it = table().find(in.tok[0]);
        if (it == table().end()) r = "{\"err\":\"VPH: unknown command\"}";
        else try { it->second(in, out); r = "[" + out.buf + "]"; }
        catch (std::exception& e) { Out o; o.put(std::string(e.what())); r = "{\"err\":" + o.buf + "}"; }
        std::string().swap(out.buf);
        left = heap() - before - (r.capacity() > 15 ? (long)r.capacity() + 1 : 0);      // less the reply itself
        fprintf(rep, "%s\n", r.c_str()); fflush(rep);
    }
    return 0;
}
}
#define CMD(name) static void cmd_##name(vph::In& in, vph::Out& out); static vph::Reg reg_##name(#name, cmd_##name); static void cmd_##name(vph::In& in, vph::Out& out)
#define VPH_MAIN int main() { return vph::run(); }
