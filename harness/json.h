// Just enough JSON for flat objects of strings.
#pragma once
#include <map>
#include <string>
struct JV { std::map<std::string, std::string> m; std::string str(const std::string &k) const { auto i = m.find(k); return i == m.end() ? "" : i->second; } };
static inline JV json_parse(const std::string &s) {
    JV v; size_t i = 0; auto str = [&](std::string &o) { while (i < s.size() && s[i] != '"') i++; i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; o += s[i++]; } i++; };
    while (i < s.size() && s[i] != '{') i++; i++;
    for (;;) {
        while (i < s.size() && s[i] != '"' && s[i] != '}') i++; if (i >= s.size() || s[i] == '}') break;
        std::string k, x; str(k); while (i < s.size() && s[i] != ':') i++; i++; while (i < s.size() && s[i] == ' ') i++;
        if (s[i] == '"') str(x); else while (i < s.size() && s[i] != ',' && s[i] != '}') x += s[i++];
        v.m[k] = x;
    }
    return v;
}
