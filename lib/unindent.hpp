// Reference for unindenting code.
#pragma once
#include "mc.hpp"
namespace unindent {
inline std::string ref(std::string const& t)
{
    auto lines = mc::split(t, '\n');
    auto ws = [](char c) { return c == ' ' || c == '\t'; };
    auto ind = [&](std::string const& l) { size_t k = 0; while (k < l.size() && ws(l[k])) ++k; return k; };
    auto blank = [&](std::string const& l) { return ind(l) == l.size(); };
    auto cols = [&](std::string const& l) { size_t c = 0; for (size_t k = 0; k < ind(l); ++k) c = l[k] == ' ' ? c + 1 : c - c % 4 + 4; return c; };
    while (lines.size() && blank(lines[0])) lines.erase(lines.begin());
    if (lines.empty()) return "";
    size_t indent = 1 << 20, full = 1 << 20;
    for (auto& l : lines) if (!blank(l)) { indent = std::min(indent, ind(l)); full = std::min(full, cols(l)); }
    bool mixed = false;
    for (size_t k = 0; k < lines.size(); ++k) {
        if (k + 1 == lines.size() && blank(lines[k])) break;
        if (ind(lines[k]) >= indent && lines[k].substr(0, indent) != lines[0].substr(0, indent)) mixed = true;
    }
    std::string r;
    for (size_t k = 0; k < lines.size(); ++k) {
        auto& l = lines[k];
        if (k) r += '\n';
        if (mixed) r += std::string(cols(l) > full ? cols(l) - full : 0, ' ') + l.substr(ind(l));
        else r += l.substr(std::min(indent, ind(l)));
    }
    return r;
}
}
