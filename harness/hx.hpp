// Helpers shared by the harness programs: JSON output, token input.
#ifndef HX_HPP
#define HX_HPP
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace hx {
    inline std::string q(const std::string &s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.length(); i++) {
            unsigned char c = s[i];
            char b[8];
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    // a text as an array of character codes
    inline std::string codes(const std::string &s) {
        std::ostringstream os;
        os << "[";
        for (size_t i = 0; i < s.length(); i++)
            os << (i ? "," : "") << (int) (unsigned char) s[i];
        os << "]";
        return os.str();
    }
    struct Rec {
        std::string s;
        Rec() : s("{") {}
        Rec &raw(const char *k, const std::string &v) {
            if (s.length() > 1) s += ",";
            s += q(k) + ":" + v;
            return *this;
        }
        Rec &str(const char *k, const std::string &v) { return raw(k, q(v)); }
        Rec &num(const char *k, long long v) { return raw(k, std::to_string(v)); }
        Rec &boolean(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
        Rec &cod(const char *k, const std::string &v) { return raw(k, codes(v)); }
        std::string done() const { return s + "}"; }
    };
    // one trace: {"ops":[...], extra}
    struct Trace {
        bool first, open;
        void (*before)();            // called before each event
        Trace() : first(true), open(false), before(0) {}
        void begin(const std::string &extra = "") {
            fputs("{", stdout);
            if (extra.length()) { fputs(extra.c_str(), stdout); fputs(",", stdout); }
            fputs("\"ops\":[", stdout);
            first = true; open = true;
        }
        void op(const Rec &r) {
            if (before) before();
            if (!first) fputs(",", stdout);
            first = false;
            fputs(r.done().c_str(), stdout);
            fflush(stdout);
        }
        void end() { fputs("]}\n", stdout); fflush(stdout); open = false; }
    };
    inline std::vector<std::string> tokens(const std::string &line) {
        std::vector<std::string> v;
        std::istringstream is(line);
        std::string t;
        while (is >> t) v.push_back(t);
        return v;
    }
    inline std::string unhex(const std::string &h) {
        std::string r;
        if (h == "-") return r;
        for (size_t i = 0; i + 1 < h.length(); i += 2)
            r += (char) strtol(h.substr(i, 2).c_str(), 0, 16);
        return r;
    }
}
#endif
