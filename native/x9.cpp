// text comparators (C09) against reference orders
#include "nt.h"
#include <locale>
#include <string_view>
#include <array>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/refined.h>
using namespace nt; static std::mt19937 G;
static std::string q(const std::string& s) { std::string r = "\""; char t[8]; for (char c : s) if (c >= 32 && c < 127) r += c; else { snprintf(t, 8, "\\x%02x", (unsigned char)c); r += t; } return r + "\""; }
// reference natural order: maximal digit groups by value when both sides stand at a digit group, characters by code otherwise
static int nat(const std::string& a, const std::string& b) { std::size_t i = 0, j = 0; auto dg = [](char c) { return c >= '0' && c <= '9'; };
    while (i < a.size() && j < b.size()) {
        if (dg(a[i]) && dg(b[j])) { std::size_t p = i, r = j; while (i < a.size() && dg(a[i])) ++i; while (j < b.size() && dg(b[j])) ++j; std::string x = a.substr(p, i - p), y = b.substr(r, j - r); x.erase(0, x.find_first_not_of('0')); if (x.size() && x[0] == '0') x.clear(); y.erase(0, y.find_first_not_of('0')); if (x.find_first_not_of('0') == std::string::npos) x.clear(); if (y.find_first_not_of('0') == std::string::npos) y.clear();
            if (x.size() != y.size()) return x.size() < y.size() ? -1 : 1; if (x != y) return x < y ? -1 : 1; continue; }
        if (a[i] != b[j]) return a[i] < b[j] ? -1 : 1; ++i; ++j; }
    return i < a.size() ? 1 : j < b.size() ? -1 : 0; }
static std::string low(std::string s) { for (auto& c : s) c = std::use_facet<std::ctype<char>>(std::locale()).tolower(c); return s; }
static bool ci(const std::string& a, const std::string& b) { auto x = low(a), y = low(b); return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()); }
static void one(const std::string& a, const std::string& b) { tick(); ++nontriv; snprintf(ctx, sizeof ctx, "a=%s b=%s", q(a).c_str(), q(b).c_str());
    // exact-size heap copies: reading past the end is detected
    std::vector<char> va(a.begin(), a.end()), vb(b.begin(), b.end()); va.shrink_to_fit(); vb.shrink_to_fit(); std::list<char> la(a.begin(), a.end());
    bool n = nat(a, b) < 0, c = ci(a, b); const auto& nl = cppsort::natural_less; const auto& cl = cppsort::case_insensitive_less;
    if (nl(va, vb) != n) fail("C09", "natural_less(a,b) is %d", !n); if (nl(a, vb) != n) fail("C09", "natural_less(string,vector) is %d", !n); if (nl(la, b) != n) fail("C09", "natural_less(list,string) is %d", !n); 
    if (cl(a, b) != c) fail("C09", "case_insensitive_less(a,b) is %d", !c); if (cl(va, vb) != c) fail("C09", "case_insensitive_less on vectors is %d", !c);
    static const std::locale loc; static const auto withloc = cl(loc); if (withloc(a, b) != c) fail("C09", "case_insensitive_less(locale)(a,b) is %d", !c);
    static const auto r1 = cppsort::refined<std::string>(cl); static const auto r2 = cppsort::refined<std::string>(withloc); if (r1(a, b) != c || r2(a, b) != c) fail("C09", "refined case_insensitive_less(a,b) is %d", !c);
    std::wstring wa(a.begin(), a.end()), wb(b.begin(), b.end()); if (a.find_first_of("\xff\x80") == std::string::npos && b.find_first_of("\xff\x80") == std::string::npos && cl(wa, wb) != c) fail("C09", "case_insensitive_less on wstring is %d", !c); }
int main(int argc, char** argv) { init(argc, argv); G.seed(seed);
    const char* al = "0129aAbZ_"; std::vector<std::string> v{""}; for (std::size_t s = 0, L = 0; L < 3; ++L) { std::size_t e = v.size(); for (; s < e; ++s) for (const char* p = al; *p; ++p) v.push_back(v[s] + *p); s = e; if (v.size() > 800) break; }
    for (auto& a : v) if (a.size() <= 2 || thorough) for (auto& b : v) if (b.size() <= 2 || thorough || G() % 8 == 0) one(a, b);
    for (int i = 0; i < (thorough ? 400000 : 60000); ++i) { std::string a, b; const char* al2 = i % 3 == 0 ? "01a" : i % 3 == 1 ? "0123456789abAB.-\xff\x80" : "10 "; int m = int(strlen(al2)); int n = G() % 12; for (int k = 0; k < n; ++k) a += al2[G() % m]; b = a; for (int k = G() % 4; k > 0; --k) { std::size_t p = b.empty() ? 0 : G() % b.size(); switch (G() % 4) { case 0: b.insert(p, 1, '0'); break; case 1: b.insert(p, 1, al2[G() % m]); break; case 2: if (!b.empty()) b.erase(p, 1); break; default: if (!b.empty()) b[p] = al2[G() % m]; } } one(a, b); one(b, a); }
    samples.push_back(ctx); return finish(); }
