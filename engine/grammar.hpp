// Reference reading of input files, written from input_format.md: what a file means, that it is malformed, or that the documentation leaves it open.
#pragma once
#include "sym.hpp"
namespace mc {
enum Verdict { VALID, MALFORMED, OPEN };
struct Meaning { Verdict verdict = VALID; std::string why, lenient; bool vdesc = false; VInput v; HInput h; std::vector<Aff> maps; bool reduced = false, raysOnly = false; };

namespace gr {
inline bool isName(const std::string& s) { if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_')) return false; for (char c : s) if (!(isalnum((unsigned char)c) || c == '_')) return false; return true; }
inline bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!isdigit((unsigned char)c)) return false; return true; }
inline bool signedInt(const std::string& s, Z& v) { // [+-]?digits
   std::string t = s; Z sg = 1; if (!t.empty() && (t[0] == '+' || t[0] == '-')) { if (t[0] == '-') sg = -1; t = t.substr(1); }
   if (!digits(t)) return false;
   v = 0; for (char c : t) { v = v * 10 + (c - '0'); if (v > (Z(1) << 62)) return true; } // far out of range anyway
   v *= sg; return true;
}
inline bool inInt(Z v) { return v <= 2147483647 && v >= -2147483647; }
inline bool onlyChars(const std::string& s, const char* set) { return s.find_first_not_of(set) == std::string::npos; }
enum Sec { NONE, NAMES, MAPS, VERTS, RAYS, RVERTS, RRAYS, EQS, INEQS, RINEQS, END };
inline bool heading(std::string s, Sec& sec) {
   if (s == "END" || s == "End") { sec = END; return true; }
   if (!s.empty() && s.back() == ':') s.pop_back();
   static const std::map<std::string, Sec> t{
      {"Names", NAMES}, {"NAMES", NAMES}, {"INDEX", NAMES}, {"INDICES", NAMES}, {"Indices", NAMES}, {"INDEX_SECTION", NAMES}, {"INDICES_SECTION", NAMES}, {"NAME_SECTION", NAMES}, {"NAMES_SECTION", NAMES},
      {"Maps", MAPS}, {"MAPS", MAPS}, {"MAP_SECTION", MAPS}, {"MAPS_SECTION", MAPS},
      {"Vertices", VERTS}, {"CONVEX_HULL", VERTS}, {"CONVEX_HULL_SECTION", VERTS}, {"CONV_SECTION", VERTS},
      {"Rays", RAYS}, {"CONE_SECTION", RAYS}, {"CONICAL_HULL", RAYS}, {"CONICAL_HULL_SECTION", RAYS},
      {"Reduced Vertices", RVERTS}, {"REDUCED_CONVEX_HULL", RVERTS}, {"REDUCED_CONVEX_HULL_SECTION", RVERTS}, {"REDUCED_CONV_SECTION", RVERTS},
      {"Reduced Rays", RRAYS}, {"REDUCED_CONE_SECTION", RRAYS}, {"REDUCED_CONICAL_HULL", RRAYS}, {"REDUCED_CONICAL_HULL_SECTION", RRAYS},
      {"Equations", EQS}, {"EQUATIONS", EQS}, {"EQUATION_SECTION", EQS}, {"EQUATIONS_SECTION", EQS},
      {"Inequalities", INEQS}, {"INEQUALITIES", INEQS}, {"INEQUALITY_SECTION", INEQS}, {"INEQUALITIES_SECTION", INEQS},
      {"Reduced Inequalities", RINEQS}, {"REDUCED_INEQUALITIES", RINEQS}, {"REDUCED_INEQUALITY_SECTION", RINEQS}, {"REDUCED_INEQUALITIES_SECTION", RINEQS}};
   auto it = t.find(s); if (it == t.end()) return false; sec = it->second; return true;
}
struct Reader {
   bool known = false;
   Meaning m; std::vector<std::string> names; bool haveDim = false; Z dim = 0; Mat verts, rays, ineqs, eqs; std::vector<Mat> maps; bool loose = false; std::vector<std::string> eqLines; bool sawV = false, sawH = false, sawR = false, sawE = false; std::set<int> seen;
   void bad(const std::string& w) { if (m.verdict != MALFORMED) { m.verdict = MALFORMED; m.why = w; } }
   void lenient(const std::string& w) { if (m.lenient.empty()) m.lenient = w; } // may be refused; if it is accepted, its meaning is this
   void open(const std::string& w) { if (m.verdict == VALID) { m.verdict = OPEN; m.why = w; } }
   // strips a leading "(...)" identifier; false if malformed
   bool identifier(std::string& line) { if (line[0] != '(') return true; auto p = line.find(')'); if (p == std::string::npos) return false; line = trim(line.substr(p + 1)); return true; }
   void generator(std::string line, Mat& out, bool ray) {
      if (!identifier(line)) return bad("identifier without end");
      if (line.empty()) return lenient("row with an identifier only");
      Vec n, q; bool fuzzy = false;
      for (auto& t : split(line)) {
         auto k = t.find('/'); Z a = 0, b = 1;
         if (signedInt(t.substr(0, k), a) && (k == std::string::npos || signedInt(t.substr(k + 1), b))) {
            if (b == 0) return bad("division by zero in " + t);
            if (a == -2147483648LL || b == -2147483648LL) { fuzzy = true; continue; } // representable, but its negation is not
            if (!inInt(a) || !inInt(b)) return bad("coordinate out of range: " + t);
            if (k != std::string::npos && !isdigit((unsigned char)t[k + 1])) lenient("sign in the denominator");
            if (b < 0) { a = -a; b = -b; }
            n.push_back(a); q.push_back(b); continue;
         }
         if (onlyChars(t, "0123456789+-/")) { fuzzy = true; continue; }
         return bad("not a rational number: " + t);
      }
      if (fuzzy) return open("number in an undocumented form");
      Z l = 1; for (Z x : q) { l = ref::lcm(l, x); if (l > 2147483647) return open("large denominators"); }
      Vec v; for (size_t i = 0; i < n.size(); ++i) { v.push_back(n[i] * (l / q[i])); if (!inInt(v.back())) return open("large denominators"); }
      v.push_back(ray ? 0 : l); if (ray && ref::isZero(v)) { if (known) open("zero ray"); else lenient("zero ray"); return; }
      out.push_back(v);
   }
   bool term(const std::string& t, bool allowSign, size_t& var, Z& c) { // [sign][digits]name
      size_t p = 0; Z sg = 1; if (t[p] == '+' || t[p] == '-') { if (!allowSign) return false; if (t[p] == '-') sg = -1; ++p; }
      size_t q = p; while (q < t.size() && isdigit((unsigned char)t[q])) ++q;
      c = 1; if (q > p && (!signedInt(t.substr(p, q - p), c) || !inInt(c))) return false; c *= sg;
      auto it = std::find(names.begin(), names.end(), t.substr(q)); if (it == names.end()) return false;
      var = size_t(it - names.begin()); return true;
   }
   void constraint(std::string line, Mat& out, bool equation) {
      if (!identifier(line)) return bad("identifier without end");
      if (line.empty()) return lenient("row with an identifier only");
      auto tok = split(line); bool letters = false; for (char c : line) if (isalpha((unsigned char)c) || c == '_') letters = true;
      auto relation = [](const std::string& t) { return t == "<=" || t == ">=" || t == "=" || t == "=="; };
      auto anyRelation = [](const std::string& t) { return t.find_first_of("<>=") != std::string::npos; };
      if (names.empty() || !letters) {
         if (letters) return bad("variable without names");
         if (!names.empty()) lenient("row without names although there are names");
         Vec v; bool rel = false;
         for (auto& t : tok) { Z z; if (signedInt(t, z)) { if (z == -2147483648LL) return open("smallest integer"); if (!inInt(z)) return bad("coefficient out of range"); v.push_back(z); } else if (anyRelation(t)) rel = true; else if (onlyChars(t, "0123456789+-")) return open("number in an undocumented form"); else return bad("not an integer: " + t); }
         if (rel) for (auto& t : tok) if (anyRelation(t) && t.find_first_not_of("<>=") != std::string::npos) return open("relation without spaces");
         if (rel) { // only complete forms could mean something
            int n = 0; for (auto& t : tok) if (anyRelation(t)) ++n;
            if (n != 1 || tok.size() < 2 || !anyRelation(tok[tok.size() - 2])) return bad("misplaced relation");
            if (tok[tok.size() - 2] == "<" || tok[tok.size() - 2] == ">") return bad("strict relation");
            std::string t = tok[tok.size() - 2];
            if (!relation(t)) return bad("relation " + t);
            if (equation != (t == "=" || t == "==")) { if (equation) return bad("inequality among the equations"); return open("equation among the inequalities"); }
            lenient("relation without names"); v.back() = -v.back(); if (t == ">=") for (Z& x : v) x = -x;
         }
         out.push_back(v); return;
      }
      Vec v(names.size() + 1, 0); std::vector<bool> used(names.size(), false); size_t i = 0; int terms = 0; std::string rel;
      for (; i < tok.size(); ++i) {
         std::string t = tok[i]; if (relation(t)) { rel = t; ++i; break; }
         if (t == "<" || t == ">") return bad("strict relation");
         if (anyRelation(t)) { if (t.size() > 1 && t.find_first_not_of("<>=") != std::string::npos) return open("relation without spaces"); return bad("relation " + t); }
         Z sg = 1; bool sep = false; if (t == "+" || t == "-") { sep = true; if (t == "-") sg = -1; if (++i == tok.size()) return bad("sign without a term"); t = tok[i]; }
         size_t var; Z c; if (!term(t, !sep, var, c)) return bad("not a term: " + t);
         if (used[var]) return bad("two terms for " + names[var]); used[var] = true; v[var] = sg * c; ++terms;
      }
      if (rel.empty()) return bad("no relation");
      if (i == tok.size()) return bad("no right-hand side");
      Z r; if (signedInt(tok[i], r) && ref::zabs(r) == 2147483648LL && r < 0) return open("smallest integer"); if (!signedInt(tok[i], r) || !inInt(r)) { if ((tok[i] == "+" || tok[i] == "-") && i + 2 == tok.size() && digits(tok[i + 1])) { if (!signedInt(tok[i + 1], r) || !inInt(r)) return bad("right-hand side " + tok[i + 1]); if (tok[i] == "-") r = -r; lenient("separated sign"); ++i; } else return bad("right-hand side " + tok[i]); }
      if (i + 1 != tok.size()) return bad("more than one right-hand side");
      if (equation != (rel == "=" || rel == "==")) { if (equation) return bad("inequality among the equations"); return open("equation among the inequalities"); }
      if (terms == 0) return open("no variable");
      v.back() = -r; if (rel == ">=") for (Z& x : v) x = -x;
      out.push_back(v);
   }
   bool image(const std::string& t, Vec& r) {
      r.assign(names.size() + 1, 0); size_t p = 0; if (t.empty()) return false;
      while (p < t.size()) {
         Z sg = 1; bool sign = false; if (t[p] == '+' || t[p] == '-') { sign = true; if (t[p] == '-') sg = -1; ++p; }
         if (!sign && p > 0) return false;
         size_t q = p; while (q < t.size() && isdigit((unsigned char)t[q])) ++q; std::string num = t.substr(p, q - p);
         size_t e = q; while (e < t.size() && t[e] != '+' && t[e] != '-') ++e; std::string name = t.substr(q, e - q);
         if (num.empty() && name.empty()) return false;
         Z c = 1; if (!num.empty() && (!signedInt(num, c) || !inInt(c))) return false; c *= sg;
         if (name.empty()) r[names.size()] += c; else { auto it = std::find(names.begin(), names.end(), name); if (it == names.end()) return false; r[size_t(it - names.begin())] += c; }
         p = e;
      }
      return true;
   }
   void map(const std::string& line) {
      if (names.empty()) return bad("map without names");
      auto tok = split(line); Mat a; for (auto& t : tok) { Vec r; if (t.find("2147483648") != std::string::npos) return open("smallest integer"); if (!image(t, r)) return bad("not an affine expression: " + t); a.push_back(r); }
      if (a.size() != names.size()) return bad("a map needs one image per variable");
      maps.push_back(a);
   }
   Meaning read(const std::vector<std::string>& lines, bool knownData = false, std::vector<std::string> givenNames = {}) {
      known = knownData; names = givenNames; Sec sec = NONE; bool anyRow = false;
      for (auto& raw : lines) {
         if (loose) return m;
         std::string line = trim(raw); if (line.empty()) continue;
         Sec h;
         if (heading(line, h)) {
            if (h == END) { if (knownData && sec == NONE) open("end before the known data"); sec = NONE; continue; }
            if (knownData && ((h != VERTS && h != RAYS && h != INEQS) || (h == INEQS && sawV) || (h != INEQS && sawH))) { open("further sections in known data"); return m; }
            sec = h; int kind = h == RVERTS ? VERTS : h == RRAYS ? RAYS : h == RINEQS ? INEQS : h;
            if (!seen.insert(kind).second) open("section given twice");
            if (h == NAMES && seen.size() > 1) lenient("names after other sections");
            if (h == MAPS && (seen.count(VERTS) || seen.count(RAYS) || seen.count(INEQS) || seen.count(EQS))) lenient("maps after other sections");
            if (h == VERTS || h == RAYS || h == RVERTS || h == RRAYS) sawV = true; if (h == INEQS || h == RINEQS) sawH = true; if (h == EQS) sawE = true;
            if (h == RVERTS || h == RRAYS || h == RINEQS) { sawR = true; if (knownData) open("reduced known data"); else if (maps.empty()) bad("reduced section without maps"); }
            continue;
         }
         if (line.compare(0, 3, "DIM") == 0 || line.compare(0, 3, "Dim") == 0) {
            std::string k = line; size_t p = 0; while (p < k.size() && isalpha((unsigned char)k[p])) ++p; std::string word = k.substr(0, p); std::string rest = trim(k.substr(p));
            if (word == "DIM" || word == "Dim" || word == "DIMENSION" || word == "Dimension") {
               if (knownData) { open("dimension in known data"); return m; }
               if (sec != NONE) { if (sec == NAMES) lenient("dimension within a section"); sec = NONE; lenient("dimension after a section"); }
               if (rest.empty() || rest[0] != '=') { lenient("dimension without value"); continue; }
               rest = trim(rest.substr(1)); Z z;
               if (rest.empty()) { bad("dimension without value"); continue; }
               if (!digits(rest)) { if (isdigit((unsigned char)rest[0]) || rest[0] == '+') { loose = true; open("dimension in an undocumented form"); } else bad("dimension is not a number"); continue; }
               signedInt(rest, z); if (haveDim) lenient("dimension given twice"); haveDim = true; dim = z; continue;
            }
         }
         switch (sec) {
            case NONE: lenient("text outside of the sections"); break;
            case NAMES: for (auto& t : split(line)) { Sec x; if (!isName(t)) open("unusual name"); if (heading(t, x) || t == "Reduced" || t.compare(0, 3, "DIM") == 0) { loose = true; open("keyword as name"); } if (std::find(names.begin(), names.end(), t) != names.end()) open("name given twice"); names.push_back(t); } break;
            case MAPS: map(line); break;
            case VERTS: case RVERTS: generator(line, verts, false); anyRow = true; break;
            case RAYS: case RRAYS: generator(line, rays, true); anyRow = true; break;
            case EQS: eqLines.push_back(line); break;
            case INEQS: case RINEQS: constraint(line, ineqs, false); anyRow = true; break;
            default: break;
         }
         if (m.verdict == MALFORMED) return m;
      }
      if (knownData && (sawR || sawE || (sawV && sawH) || !maps.empty() || haveDim || seen.count(NAMES))) { open("further sections in known data"); return m; }
      if (sawV && sawH) { bad("inner and outer description"); return m; }
      if (!sawV && !sawH) { for (auto& l : eqLines) constraint(l, eqs, true); if (sawE) open("equations only"); else bad("no description"); return m; }
      if (seen.count(MAPS) && maps.empty()) lenient("empty section of maps");
      m.raysOnly = sawV && verts.empty() && !knownData;
      if (!(sawV && sawE)) for (auto& l : eqLines) { constraint(l, eqs, true); if (m.verdict == MALFORMED) return m; }
      if (m.verdict == OPEN) return m;
      if (sawE && sawV) { open("equations in an inner description"); return m; }
      if (!anyRow) { if (knownData) open("empty known data"); else bad("empty description"); return m; }
      if (sawV ? verts.empty() && rays.empty() : ineqs.empty()) { open("no row with a meaning"); return m; }
      size_t d1 = sawV ? (verts.empty() ? rays : verts).front().size() : ineqs.front().size();
      for (auto* x : {&verts, &rays, &ineqs, &eqs}) for (auto& r : *x) if (r.size() != d1) { bad("rows of different length"); return m; }
      for (auto& a : maps) { if (a.size() + 1 != d1) { open("maps of another dimension"); return m; } for (auto& r : a) if (r.size() != d1) { open("maps of another dimension"); return m; } }
      if (d1 < 2) { if (sawH) open("dimension 0"); else bad("no coordinates"); return m; }
      if (!names.empty() && names.size() + 1 != d1) { bad("number of names differs from the dimension"); return m; }
      if (haveDim && size_t(dim) + 1 != d1) { bad("stated dimension differs"); return m; }
      if (sawV && verts.empty() && !knownData) { open("rays only"); return m; }
      m.vdesc = sawV; std::string nm; for (auto& n : names) nm += (nm.empty() ? "" : " ") + n;
      if (sawV) { m.v.d = int(d1) - 1; m.v.names = nm; m.v.verts = verts; m.v.rays = rays; } else { m.h.d = int(d1) - 1; m.h.names = nm; m.h.ineqs = ineqs; m.h.eqs = eqs; }
      for (auto& a : maps) { Aff x; x.m = a; m.maps.push_back(x); }
      m.reduced = sawR; if (sawR) open("reduced input");
      for (auto* x : {&verts, &rays, &ineqs, &eqs}) for (auto& r : *x) for (Z z : r) if (ref::zabs(z) > 100000) open("large numbers");
      return m;
   }
};
} // namespace gr
} // namespace mc
