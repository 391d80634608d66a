// Anonymization: random histories of strings, pseudonyms and mappings written and read back.
#include "vp.hpp"
#include <powsybl/iidm/converter/FakeAnonymizer.hpp>
#include <powsybl/iidm/converter/SimpleAnonymizer.hpp>

using namespace vp;
using namespace powsybl::iidm::converter;

static std::string name(unsigned long k) {
    static const std::string C = "abAB019_- .\xc3\xa9";
    std::string s;
    for (unsigned long i = 0, n = 1 + rnd(4); i < n; ++i) s += C[rnd(C.size())];
    return k % 3 == 0 ? s : k % 3 == 1 ? std::string(1, static_cast<char>('A' + rnd(26))) : s + std::to_string(rnd(50));
}

static void verify(SimpleAnonymizer& a, const std::map<std::string, std::string>& m) {
    std::set<std::string> seen;
    for (const auto& e : m) {
        eq(a.anonymizeString(e.first), e.second, "a string keeps its pseudonym", "'" + e.first + "'");
        check(seen.insert(e.second).second, "different strings have different pseudonyms", "'" + e.second + "'");
        check(!throws([&]() { eq(a.deanonymizeString(e.second), e.first, "the pseudonym gives the string back", "'" + e.second + "'"); }), "a pseudonym is known", "'" + e.second + "'");
    }
    eq(a.getStringCount(), static_cast<unsigned long>(m.size()), "number of strings");
}

static std::map<std::string, std::string> pairs(const std::string& text) {
    std::map<std::string, std::string> m; std::istringstream in(text); std::string l;
    while (std::getline(in, l)) m[l.substr(0, l.find(';'))] = l.substr(l.find(';') + 1);
    return m;
}

void run() {
    for (unsigned long h = 0, H = st().thorough ? 3000 : 300; h < H; ++h) {
        at("history " + std::to_string(h));
        SimpleAnonymizer a; std::map<std::string, std::string> m;
        if (h % 4 == 1) { // an existing mapping
            std::string text; std::set<std::string> ps;
            for (unsigned long i = 0, n = 1 + rnd(8); i < n; ++i) {
                const std::string s = name(i), p = i % 2 ? std::string(1, static_cast<char>('A' + rnd(8))) : "P" + std::to_string(i);
                if (m.count(s) || !ps.insert(p).second) continue;
                m[s] = p; text += s + ";" + p + "\n";
            }
            std::istringstream in(text); a.read(in); verify(a, m);
        }
        for (unsigned long i = 0, n = h % 50 == 0 ? 1500 : 5 + rnd(60); i < n; ++i) {
            const std::string s = h % 50 == 0 ? "name" + std::to_string(i) : name(rnd(9)); const std::string p = a.anonymizeString(s);
            check(!p.empty() && p.find_first_of(";\n") == std::string::npos, "a pseudonym can be written", "'" + p + "'");
            if (m.count(s)) eq(p, m[s], "a string keeps its pseudonym", "'" + s + "'");
            m[s] = p;
            const std::string u = "?" + name(i); check(throws([&]() { a.deanonymizeString(u); }), "an unknown pseudonym is rejected", "'" + u + "'");
            check(throws([&]() { a.deanonymizeString("!" + p); }), "an unknown pseudonym is rejected", p);
        }
        eq(a.anonymizeString(""), std::string(), "the empty string stays"); eq(a.deanonymizeString(""), std::string(), "the empty string stays");
        verify(a, m);
        std::ostringstream out; a.write(out); check(pairs(out.str()) == m, "the mapping written is the mapping", out.str().substr(0, 80));
        SimpleAnonymizer b; std::istringstream in(out.str()); b.read(in); verify(b, m);
        for (unsigned long i = 0; i < 40; ++i) { const std::string s = name(rnd(9)); const std::string p = b.anonymizeString(s); if (m.count(s)) eq(p, m[s], "a string keeps its pseudonym after reading", s); m[s] = p; }
        verify(b, m);
    }
    FakeAnonymizer f; for (unsigned long i = 0; i < 50; ++i) { const std::string s = name(i); eq(f.anonymizeString(s), s, "fake anonymizer"); eq(f.deanonymizeString(s), s, "fake anonymizer"); }
    at("names with the separator");
    for (const std::string& s : {"a;b", ";", "a;", ";b", "a\nb"}) {
        SimpleAnonymizer a; const std::string p = a.anonymizeString(s); std::ostringstream out; a.write(out); SimpleAnonymizer b; std::istringstream in(out.str());
        check(!throws([&]() { b.read(in); check(b.deanonymizeString(p) == s, "names with the separator", s); }), "names with the separator", s);
    }
}
