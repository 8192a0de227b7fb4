#include "spec.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

std::string Num(double v) {
    char b[40];
    if (v == static_cast<long long>(v) && std::abs(v) < 1e15) {
        snprintf(b, sizeof b, "%lld", static_cast<long long>(v));
        return b;
    }
    for (int p = 3; p <= 17; ++p) {
        snprintf(b, sizeof b, "%.*g", p, v);
        if (strtod(b, nullptr) == v) break;
    }
    return b;
}
std::vector<std::string> Split(const std::string& s, char sep) {
    std::vector<std::string> out;
    std::string cur;
    for (char c : s) {
        if (c == sep) {
            out.push_back(cur);
            cur.clear();
        } else cur += c;
    }
    if (!cur.empty() || !out.empty()) out.push_back(cur);
    return out;
}
bool Item::has(const std::string& k) const {
    for (auto& p : kv) if (p.first == k) return true;
    return false;
}
std::string Item::str(const std::string& k, const std::string& def) const {
    for (auto& p : kv) if (p.first == k) return p.second;
    return def;
}
double Item::num(const std::string& k, double def) const {
    for (auto& p : kv) if (p.first == k) return strtod(p.second.c_str(), nullptr);
    return def;
}
int Item::i(const std::string& k, int def) const {
    for (auto& p : kv) if (p.first == k) return static_cast<int>(strtoll(p.second.c_str(), nullptr, 10));
    return def;
}
Item& Item::set(const std::string& k, const std::string& v) {
    for (auto& p : kv) if (p.first == k) { p.second = v; return *this; }
    kv.emplace_back(k, v);
    return *this;
}
Item& Item::set(const std::string& k, double v) { return set(k, Num(v)); }
Item& Item::set(const std::string& k, int v) { return set(k, std::to_string(v)); }
std::string Item::line() const {
    std::string s = kind;
    for (auto& p : kv) s += " " + p.first + "=" + p.second;
    return s;
}
static const Item kEmpty{};
const Item& Spec::one(const std::string& kind) const {
    for (auto& it : items) if (it.kind == kind) return it;
    return kEmpty;
}
Item* Spec::find(const std::string& kind) {
    for (auto& it : items) if (it.kind == kind) return &it;
    return nullptr;
}
std::vector<const Item*> Spec::all(const std::string& kind) const {
    std::vector<const Item*> v;
    for (auto& it : items) if (it.kind == kind) v.push_back(&it);
    return v;
}
std::string Spec::text() const {
    std::string s;
    for (auto& it : items) s += it.line() + "\n";
    return s;
}
Spec Spec::parse(const std::string& text) {
    Spec sp;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string tok;
        ls >> tok;
        Item it{tok, {}};
        while (ls >> tok) {
            auto p = tok.find('=');
            if (p == std::string::npos) it.kv.emplace_back(tok, "");
            else it.kv.emplace_back(tok.substr(0, p), tok.substr(p + 1));
        }
        sp.items.push_back(std::move(it));
    }
    return sp;
}
