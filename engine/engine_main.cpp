#include "props.hpp"
#include <algorithm>
int main(int argc, char** argv) {
   std::vector<mc::Property> props;
   mc::addEnumProps(props);
   mc::addSymProps(props);
   mc::addOptProps(props);
   mc::addKnownProps(props);
   mc::addArithProps(props);
   mc::addInputProps(props); addFormProps(props); addCliProps(props); addCheckProps(props); addSizeProps(props);
#ifdef VP_ASAN
   // memory safety: families of the other properties, executed on a build with address and undefined-behaviour sanitizers
   auto pick = [&](const std::string& id, std::vector<std::string> quick, std::vector<std::string> thorough) {
      std::vector<mc::Family> r;
      for (auto& p : props) if (p.id == id) for (auto& f : p.families) {
         bool q = quick.empty() ? !f.thoroughOnly : std::find(quick.begin(), quick.end(), f.name) != quick.end();
         bool t = q || thorough.empty() ? true : std::find(thorough.begin(), thorough.end(), f.name) != thorough.end();
         if (t) { mc::Family g = f; g.name = id + "/" + f.name; g.thoroughOnly = !q; r.push_back(g); }
      }
      return r;
   };
   mc::Property m; m.id = "memory";
   for (auto& l : {
      pick("malformed-input", {"tokens-v", "tokens-h", "lines-v", "lines-h", "known-data", "lengths"}, {"characters-v", "characters-h"}),
      pick("input-forms", {"forms-dd"}, {"forms-v", "forms-h"}),
      pick("command-line", {"one-option", "integer-types", "check-and-known", "wrong-values", "misspelt", "file-names", "help-and-version"}, {"sorting", "two-options", "method"}),
      pick("facets-ad", {"line-rays", "grid3x3", "cube3"}, {"classic", "line", "fractions", "plane-rays", "cube4", "grid3^3", "space-rays", "orbits5"}),
      pick("facets-dd", {"line", "line-rays", "grid3x3", "cube3", "classic"}, {"orbits5", "plane-rays", "cube4", "grid3^3"}),
      pick("vertices-ad", {"cube-cuts", "classic"}, {"line", "plane-cuts", "plane-eq", "orthant-cuts", "cube4-eq", "cones"}),
      pick("vertices-dd", {"classic"}, {"cube-cuts", "line", "plane-cuts", "plane-eq", "orthant-cuts", "cube4-eq", "cones"}),
      pick("symmetry-facets", {"classic"}, {"space4", "plane-pairs", "space-pairs"}),
      pick("known-data", {"spellings"}, {"maps-classic", "maps-plane", "vertices-frac", "vertices-spellings"}),
      pick("big-integer", {"lines"}, {"solids", "polygons", "vertices-scaled", "vertices-2"}),
      pick("validity-check", {"known-facets-pairs"}, {"known-facets", "known-vertices", "maps-plane-rays"}),
      pick("many-rows", {"cyclic-dd", "polygons-dd"}, {"hull-among-redundant-dd", "many-results-dd", "system-among-redundant-dd", "tangents-dd", "prisms-dd"}),
   }) m.families.insert(m.families.end(), l.begin(), l.end());
   props.push_back(m);
#endif
   return mc::engineMain(argc, argv, props);
}
