// What an operation made of its arguments, as a list of named values which another build of the same code must repeat.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace vh {
struct Item { const char* what; int kind; uint64_t u; double f; std::string s; };  // 0 exact, 1 double, 2 float, 3 text
struct Log {
    std::vector<Item> items; const char* what = "";
    Log& at(const char* w) { what = w; return *this; }
    void i(uint64_t u) { items.push_back({what, 0, u, 0, ""}); }
    void f(double d) { items.push_back({what, 1, 0, d, ""}); }
    void f(float d) { items.push_back({what, 2, 0, d, ""}); }
    void s(std::string t) { items.push_back({what, 3, 0, 0, std::move(t)}); }
};
}
