#pragma once
#include "spaces.hpp"
namespace mc {
void addEnumProps(std::vector<Property>&);
void addSymProps(std::vector<Property>&);
void addKnownProps(std::vector<Property>&);
void addOptProps(std::vector<Property>&);
void addArithProps(std::vector<Property>&);
void addInputProps(std::vector<Property>&); void addFormProps(std::vector<Property>&); void addCliProps(std::vector<Property>&); void addCheckProps(std::vector<Property>&); void addSizeProps(std::vector<Property>&);
void caseFacets(Emitter&, const VInput&, const std::vector<std::string>& args);
void caseVertices(Emitter&, const HInput&, const std::vector<std::string>& args);
}
