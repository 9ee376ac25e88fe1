// One input in all its written forms: headings, PORTA syntax, numbers, names, layout. The meaning is fixed, only the text varies.
#include "grammar.hpp"
#include "reps.hpp"
namespace mc {
struct Axis { const char* name; int options; };
// every assignment with at most k axes off their default (0)
static void deviations(const std::vector<Axis>& ax, int k, const std::function<void(const std::vector<int>&)>& f) {
   std::vector<int> a(ax.size(), 0);
   std::function<void(size_t, int)> go = [&](size_t i, int left) { if (i == ax.size()) { f(a); return; } go(i + 1, left); if (left) { for (int o = 1; o < ax[i].options; ++o) { a[i] = o; go(i + 1, left - 1); } a[i] = 0; } };
   go(0, k);
}
static const std::vector<std::string> nameHeads{"Names", "NAMES", "INDEX", "INDICES", "Indices", "INDEX_SECTION", "INDICES_SECTION", "NAME_SECTION", "NAMES_SECTION"};
static const std::vector<std::string> mapHeads{"Maps", "MAPS", "MAP_SECTION", "MAPS_SECTION"};
static const std::vector<std::string> vertHeads{"Vertices", "CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION"};
static const std::vector<std::string> rayHeads{"Rays", "CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION"};
static const std::vector<std::string> eqHeads{"Equations", "EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION"};
static const std::vector<std::string> ineqHeads{"Inequalities", "INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION"};
static const std::vector<std::string> rvertHeads{"Reduced Vertices", "REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION"};
static const std::vector<std::string> rrayHeads{"Reduced Rays", "REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION"};
static const std::vector<std::string> rineqHeads{"Reduced Inequalities", "REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION"};
static std::string head(const std::vector<std::string>& v, int o) { return v[size_t(o) / 2] + (o % 2 ? ":" : ""); }
static const std::vector<std::string> nameSets{"x y z w", "x1 x10 x100 x11", "a ab abc b", "X_1 _y Zz z", "e E1 i0 inf", "x xx y yx", "DIMx ENDy Vertices1 names", "variable_with_a_long_name v2 v3 v4"};
static std::string firstNames(const std::string& set, int d) { auto n = split(set); std::string s; for (int i = 0; i < d; ++i) s += (i ? " " : "") + n[size_t(i)]; return s; }

struct Doc { // the meaning
   int d = 0; bool v = true; Mat verts, rays, ineqs, eqs; std::vector<Aff> maps; bool needNames = false; Mat seedV, seedR, seedI;
};
static const std::vector<Axis> commonAxes{{"names heading", 18}, {"maps heading", 8}, {"section heading", 8}, {"second section heading", 8}, {"END", 4}, {"DIM", 4}, {"blank lines", 5}, {"layout", 8}, {"line ends", 4}, {"identifiers", 5}, {"numbers", 6}, {"names", 8}, {"name layout", 3}, {"section order", 4}, {"map terms", 4}, {"reduced", 2}};
static const std::vector<Axis> hAxes{{"relation", 6}, {"term order", 3}, {"coefficients", 5}, {"sign layout", 3}, {"right-hand side", 3}, {"row style", 5}};

struct Style { std::vector<int> a, h; };
static std::string number(Z n, Z q, int style) { // n/q
   Z g = ref::gcd(n, q); if (g > 1) { n /= g; q /= g; }
   auto s = [&](Z x) { return ref::str(x); };
   switch (style) {
      case 1: return q == 1 ? s(n) : s(2 * n) + "/" + s(2 * q);      // unreduced fractions
      case 2: return s(n) + "/" + s(q);                               // integers as fractions
      case 3: return s(3 * n) + "/" + s(3 * q);
      case 4: return (n >= 0 ? "+" : "") + s(n) + (q == 1 ? "" : "/" + s(q));
      case 5: return (n < 0 ? "-0" : "0") + s(ref::zabs(n)) + (q == 1 ? "" : "/0" + s(q)); // leading zeros
      default: return q == 1 ? s(n) : s(n) + "/" + s(q);
   }
}
static std::string mapText(const Aff& a, const std::vector<std::string>& names, int style) {
   std::string s;
   for (size_t i = 0; i < a.m.size(); ++i) {
      std::vector<std::string> terms; size_t n = names.size();
      for (size_t j = 0; j <= n; ++j) { size_t k = style & 1 ? n - j : j; Z c = a.m[i][k]; if (c == 0) continue; bool var = k < n; std::string t = c < 0 ? "-" : "+"; Z m = ref::zabs(c); if (!var || m != 1 || (style & 2)) t += ref::str(m); if (var) t += names[k]; terms.push_back(t); }
      std::string t; for (auto& x : terms) t += x; if (t.empty()) t = "0"; if (t[0] == '+' && style != 3) t.erase(0, 1);
      s += (i ? " " : "") + t;
   }
   return s;
}
static std::string rowText(const Doc& d, const Vec& r, bool eq, const std::vector<std::string>& names, const Style& st, size_t row) {
   Vec v = r; int num = st.a[10]; const auto& h = st.h; std::string rel = eq ? "=" : "<=";
   bool vec = names.empty() || h[5] == 1 || h[5] == 3 || (h[5] % 2 == 0 && h[5] && row % 2), relation = h[5] == 3 || (h[5] == 4 && (vec || names.empty())); // coefficients instead of terms, with or without relation
   auto co = [&](Z x) { return num == 4 || num == 5 ? number(x, 1, num) : ref::str(x); };
   if (vec && !relation) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + co(v[i]); return s; }
   if (eq) { if (h[0] == 2) rel = "=="; if (h[0] == 3) for (Z& x : v) x = -x; }
   else if (h[0] == 1) { rel = ">="; for (Z& x : v) x = -x; }
   if (vec) { std::string s; for (size_t i = 0; i + 1 < v.size(); ++i) s += co(v[i]) + " "; return s + rel + " " + co(-v.back()); }
   std::vector<size_t> order; for (size_t i = 0; i + 1 < v.size(); ++i) order.push_back(i);
   if (h[1] == 1) std::reverse(order.begin(), order.end()); if (h[1] == 2) std::rotate(order.begin(), order.begin() + 1, order.end());
   std::string s; bool any = false;
   for (size_t i : order) {
      Z c = v[i], m = ref::zabs(c); if (c == 0 && h[2] != 1) continue;
      std::string co = m == 1 && h[2] != 2 && h[2] != 4 ? "" : (h[2] == 4 ? "0" : "") + ref::str(m);
      std::string sign = c < 0 ? "-" : "+";
      if (!any && c >= 0 && h[2] != 3) sign = "";
      if (any) s += h[3] == 2 ? "  " : " ";
      s += sign; if (h[3] == 1 && any) s += " "; s += co + names[i]; any = true;
   }
   if (!any) s += "0" + names[0];
   Z rhs = -v.back(); return s + " " + rel + " " + (h[4] == 1 && rhs >= 0 ? "+" : "") + (h[4] == 2 ? (rhs < 0 ? "-0" : "0") + ref::str(ref::zabs(rhs)) : ref::str(rhs));
}
static std::string render(const Doc& d, const Style& st, std::string& namesOut) {
   const auto& a = st.a; std::string names;
   if (d.needNames || !d.maps.empty()) names = firstNames(nameSets[size_t(a[11])], d.d);
   namesOut = names; auto nm = split(names);
   struct Sec { std::string head; std::vector<std::string> rows; int kind; }; std::vector<Sec> secs;
   bool red = a[15] && !d.maps.empty() && (!d.seedV.empty() || !d.seedI.empty());
   if (!names.empty()) { Sec s{head(nameHeads, a[0]), {}, 0}; if (a[12] == 1) s.rows = nm; else if (a[12] == 2) { std::string l; for (auto& n : nm) l += (l.empty() ? "" : "\t  ") + n; s.rows = {l}; } else s.rows = {names}; secs.push_back(s); }
   if (!d.maps.empty()) { Sec s{head(mapHeads, a[1]), {}, 0}; for (auto& m : d.maps) s.rows.push_back(mapText(m, nm, a[14])); secs.push_back(s); }
   auto id = [&](size_t i) -> std::string { switch (a[9]) { case 1: return "(" + std::to_string(i + 1) + ") "; case 2: return "(  " + std::to_string(i + 1) + ")   "; case 3: return "(row " + std::to_string(i + 1) + " of 1/2 <= x)\t"; case 4: return i % 2 ? "" : "(a)"; default: return ""; } };
   auto gens = [&](const Mat& m, const std::string& hd) { Sec s{hd, {}, 1}; for (size_t i = 0; i < m.size(); ++i) { std::string l = id(i); Z q = m[i].back() == 0 ? 1 : m[i].back(); for (size_t k = 0; k + 1 < m[i].size(); ++k) l += (k ? " " : "") + number(m[i][k], q, a[10]); s.rows.push_back(l); } secs.push_back(s); };
   if (d.v) {
      bool redR = red && !d.seedR.empty(), redV = red;
      if (!d.verts.empty()) gens(redV ? d.seedV : d.verts, head(redV ? rvertHeads : vertHeads, a[2])); if (!d.rays.empty()) gens(redR ? d.seedR : d.rays, head(redR ? rrayHeads : rayHeads, a[3]));
   } else {
      auto cons = [&](const Mat& m, const std::string& hd, bool eq) { Sec s{hd, {}, 1}; for (size_t i = 0; i < m.size(); ++i) s.rows.push_back(id(i) + rowText(d, m[i], eq, nm, st, i)); secs.push_back(s); };
      if (!d.eqs.empty()) cons(d.eqs, head(eqHeads, a[3]), true);
      cons(red ? d.seedI : d.ineqs, head(red ? rineqHeads : ineqHeads, a[2]), false);
   }
   // order of the sections: the two row sections may be exchanged (not for reduced inequalities, which need the equations first)
   size_t n = secs.size(); if (a[13] == 1 && n >= 2 && secs[n - 1].kind == 1 && secs[n - 2].kind == 1 && !(red && !d.v)) std::swap(secs[n - 1], secs[n - 2]);
   // maps before the names are impossible, after the rows they are possible unless classes have to be expanded; names only matter for what follows
   if (a[13] >= 2 && !d.maps.empty() && !red) { Sec m = secs[1]; secs.erase(secs.begin() + 1); secs.insert(a[13] == 2 ? secs.end() : secs.begin() + 2, m); }
   else if (a[13] == 2 && d.v && d.maps.empty() && !names.empty()) { Sec m = secs[0]; secs.erase(secs.begin()); secs.push_back(m); }
   std::string s; const std::string ws[] = {"", "  ", "\t", "", "", "", "   ", ""};
   auto emit = [&](const std::string& l) {
      std::string t = l;
      if (a[7] == 3) t += "  "; if (a[7] == 4) t += "\t"; if (a[7] == 5) { std::string u; for (char ch : t) { u += ch; if (ch == ' ' && u.find(':') == std::string::npos && !isupper((unsigned char)t[0])) u += "  "; } t = u; }
      if (a[7] == 6) { t = t + "  "; } if (a[7] == 7) { std::string u; for (char ch : t) u += ch == ' ' && t.compare(0, 7, "Reduced") ? '\t' : ch; t = u; }
      s += ws[a[7]] + t + (a[8] & 1 ? "\r\n" : "\n");
   };
   if (a[6] == 4) for (int i = 0; i < 12; ++i) emit("");
   if (a[5]) { emit(std::string(a[5] == 2 ? "DIM = " : a[5] == 3 ? "DIMENSION=" : "DIM=") + std::to_string(d.d)); if (a[6]) emit(""); }
   for (size_t i = 0; i < n; ++i) {
      emit(secs[i].head); if (a[6] == 2 && secs[i].kind == 1) emit("");
      for (auto& r : secs[i].rows) { emit(r); if (a[6] == 3) emit(a[7] == 1 ? " " : ""); }
      if (a[6] == 1 || a[6] == 2) emit("");
      bool last = i + 1 == n; if (a[4] == 1 && last) emit("END"); if (a[4] == 2 && secs[i].kind == 1) emit("END"); if (a[4] == 3 && last) emit("End");
   }
   if (a[8] & 2) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); // no line end at the end of the file
   return s;
}
static void caseForm(Emitter& em, const Doc& d, const Style& st, const std::vector<std::string>& args) {
   if (!em.want()) return;
   em.exec([=](Ctx& c) -> std::string {
      std::string names, text = render(d, st, names);
      Result r = c.run({args, {{"in", text}}});
      if (d.v) {
         Mat g = d.verts; g.insert(g.end(), d.rays.begin(), d.rays.end()); FacetRef fr(g, d.d);
         if (d.maps.empty()) return judgeFacets(fr, r, d.d, names);
         SymCase s; s.d = d.d; s.maps = d.maps; s.V = d.verts; s.R = d.rays; return judgeReducedFacets(fr, s, r, names);
      }
      HInput h; h.d = d.d; h.ineqs = d.ineqs; h.eqs = d.eqs; auto er = ref::extremeRays(h.cone(), h.d + 1);
      return d.maps.empty() ? judgeVertices(er.rays, r, h.d) : judgeReducedVertices(er.rays, h.d, d.maps, r);
   });
}
static std::vector<Doc> vFormDocs() {
   std::vector<Doc> l; auto add = [&](int d, Mat v, Mat r, std::vector<std::string> maps, bool names, Mat sv = {}, Mat sr = {}) { Doc x; x.d = d; x.verts = v; x.rays = r; for (auto& m : maps) x.maps.push_back(A(m, d)); x.needNames = names; x.seedV = sv; x.seedR = sr; l.push_back(x); };
   add(2, {{0, 0, 1}, {-5, 2, 2}, {0, 7, 3}}, {}, {}, false);
   add(2, {{1, -3, 2}, {12, 10, 1}, {0, 0, 1}}, {{1, 2, 0}, {0, 1, 0}}, {}, true);
   add(2, {{0, 0, 1}, {10, 0, 1}, {0, 10, 1}, {10, 10, 1}}, {}, {"y x", "10-x y"}, true, {{10, 0, 1}});
   add(3, {{1, 0, 0, 2}, {0, 1, 0, 2}, {0, 0, 1, 2}}, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}}, {"y z x", "y x z"}, true, {{1, 0, 0, 2}}, {{0, 1, 0, 0}});
   return l;
}
static std::vector<Doc> hFormDocs() {
   std::vector<Doc> l; auto add = [&](int d, Mat i, Mat e, std::vector<std::string> maps, bool names, Mat si = {}) { Doc x; x.v = false; x.d = d; x.ineqs = i; x.eqs = e; for (auto& m : maps) x.maps.push_back(A(m, d)); x.needNames = names; x.seedI = si; l.push_back(x); };
   add(2, {{-1, 0, 0}, {0, -1, 0}, {1, 12, -10}}, {}, {}, false);
   add(2, {{-1, 0, 0}, {0, -10, -3}, {1, 2, -12}, {3, -1, -20}}, {}, {}, true);
   add(3, {{-1, 0, 0, 0}, {0, -1, 0, -2}, {0, 0, -1, 0}, {1, 1, 1, -4}}, {{1, -1, 0, -1}}, {}, true);
   add(3, {{-1, 0, 0, 0}, {0, -1, 0, 0}, {1, 1, 0, -3}}, {{1, 0, -2, 0}}, {}, false);
   add(2, {{-1, 0, 0}, {0, -1, 0}, {1, 1, -10}}, {}, {"y x"}, true, {{0, -1, 0}, {1, 1, -10}});
   add(3, {{-1, 0, 0, 0}, {0, -1, 0, 0}, {0, 0, -1, 0}, {1, 0, 0, -10}, {0, 1, 0, -10}, {0, 0, 1, -10}}, {{1, 1, 1, -20}}, {"y z x"}, true, {{-1, 0, 0, 0}, {0, 0, 1, -10}});
   return l;
}
static void forms(Emitter& em, bool h, int k, const std::vector<std::string>& args) {
   auto axes = commonAxes; if (h) axes.insert(axes.end(), hAxes.begin(), hAxes.end());
   for (auto& d : h ? hFormDocs() : vFormDocs()) {
      std::set<uint64_t> seen; // forms that coincide are executed once
      deviations(axes, k, [&](const std::vector<int>& x) { Style s; s.a.assign(x.begin(), x.begin() + long(commonAxes.size())); s.h.assign(x.begin() + long(commonAxes.size()), x.end()); if (s.h.empty()) s.h.assign(hAxes.size(), 0); std::string n; if (!seen.insert(fnv(render(d, s, n))).second) return; caseForm(em, d, s, args); });
   }
}
void addFormProps(std::vector<Property>& out) {
   Property p; p.id = "input-forms";
   const std::vector<std::string> ad{"-t", "1", "in"}, dd{"-m", "dd", "in"};
   const std::string w = ": every form that differs from the plain one in at most 2 of the choices (heading spelling with and without colon, END, DIM, blank lines (up to 12 in front), indentation, trailing blanks, tabs, CRLF, missing final line end, identifiers, unreduced / signed / zero-padded numbers, fractions, names, section order, spelling of maps, reduced sections";
   p.families.push_back({"forms-v", "4 inner descriptions" + w + ")", false, [=](Emitter& em) { forms(em, false, 2, ad); }});
   p.families.push_back({"forms-h", "6 outer descriptions" + w + ", relation, term order, coefficient and sign spelling, terms or coefficients with or without relation or both kinds of rows mixed)", false, [=](Emitter& em) { forms(em, true, 2, ad); }});
   p.families.push_back({"forms-dd", "the same descriptions and at most 1 choice, double description", false, [=](Emitter& em) { forms(em, false, 1, dd); forms(em, true, 1, dd); }});
   p.families.push_back({"forms-v-3", "inner descriptions, at most 3 choices", true, [=](Emitter& em) { forms(em, false, 3, ad); }});
   p.families.push_back({"forms-h-3", "outer descriptions, at most 3 choices", true, [=](Emitter& em) { forms(em, true, 3, ad); }});
   out.push_back(p);
}
} // namespace mc
