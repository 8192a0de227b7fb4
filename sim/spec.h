#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdint>

// A scenario is a list of items: "kind key=value key=value". It is the replay file format.
struct Item {
    std::string kind;
    std::vector<std::pair<std::string, std::string>> kv;
    bool has(const std::string& k) const;
    std::string str(const std::string& k, const std::string& def = "") const;
    double num(const std::string& k, double def = 0) const;
    int i(const std::string& k, int def = 0) const;
    Item& set(const std::string& k, const std::string& v);
    Item& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
    Item& set(const std::string& k, double v);
    Item& set(const std::string& k, int v);
    Item& set(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
    std::string line() const;
};

struct Spec {
    std::vector<Item> items;
    Item& add(const std::string& kind) {
        items.push_back(Item{kind, {}});
        return items.back();
    }
    const Item& one(const std::string& kind) const;  // first of that kind, or an empty item
    Item* find(const std::string& kind);
    std::vector<const Item*> all(const std::string& kind) const;
    std::string text() const;
    static Spec parse(const std::string& text);
};

std::vector<std::string> Split(const std::string& s, char sep);
std::string Num(double v);
