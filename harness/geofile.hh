// Interpreter of .geo files and the numbers a mesher gives to the shapes of a .brep file.
#ifndef VERIF_GEOFILE_HH
#define VERIF_GEOFILE_HH
#include "net.hh"
#include <BRepTools.hxx>
#include <BRep_Builder.hxx>
#include <filesystem>
#include <fstream>
#include <regex>
namespace vf {
// ---- what a .geo file says, executed in order
struct GeoFile
{
    std::string merge; int merges = 0; std::map<std::string,double> vars; std::map<int,std::map<int,std::vector<int>>> phys; std::vector<std::string> errors;
    struct Size { int dim; std::vector<int> list; double value; }; std::vector<Size> sizes;
    static int dim(const std::string& s) { return s == "Volume" ? 3 : s == "Surface" ? 2 : s == "Line" || s == "Curve" ? 1 : 0; }
    static std::vector<int> list(const std::string& s) { std::vector<int> v; std::regex num("-?[0-9]+"); for (std::sregex_iterator i(s.begin(), s.end(), num), e; i != e; ++i) v.push_back(std::stoi(i->str())); return v; }
    double value(const std::string& s) { auto it = vars.find(s); if (it != vars.end()) return it->second; try { std::size_t n; const double v = std::stod(s, &n); if (n == s.size()) return v; } catch (...) {} errors.push_back("unknown value " + s); return NAN; }
    explicit GeoFile(const std::string& file)
    {
        std::ifstream f(file); std::string text, line; while (std::getline(f, line)) { const auto k = line.find("//"); text += line.substr(0, k) + "\n"; }
        static const std::regex rMerge("Merge\\s*\"([^\"]*)\""), rVar("(\\w+)\\s*=\\s*([-+.eE0-9]+)"), rPhys("Physical\\s+(Volume|Surface|Line|Curve|Point)\\s*\\(\\s*(-?\\d+)\\s*\\)\\s*=\\s*\\{([-0-9,\\s]*)\\}"),
            rSize("(?:Characteristic\\s+Length|MeshSize)\\s*\\{\\s*PointsOf\\s*\\{\\s*(Volume|Surface|Line|Curve|Point)\\s*\\{([-0-9,\\s]*)\\}\\s*;?\\s*\\}\\s*;?\\s*\\}\\s*=\\s*(\\S+)");
        std::string st; int depth = 0; bool quoted = false;
        auto statement = [&](std::string s) {
            const auto a = s.find_first_not_of(" \t\n\r"); if (a == std::string::npos) return; s = s.substr(a, s.find_last_not_of(" \t\n\r") - a + 1); std::smatch m;
            if (std::regex_match(s, m, rMerge)) { merge = m[1]; merges++; }
            else if (std::regex_match(s, m, rPhys)) { auto& g = phys[dim(m[1])]; const int tag = std::stoi(m[2]); if (g.count(tag)) errors.push_back("physical group " + std::string(m[2]) + " is defined twice"); g[tag] = list(m[3]); }
            else if (std::regex_match(s, m, rSize)) { const double v = value(m[3]); sizes.push_back({dim(m[1]), list(m[2]), v}); }
            else if (std::regex_match(s, m, rVar)) { const double v = value(m[2]); vars[m[1]] = v; }
            else errors.push_back("statement not understood: " + s.substr(0, 80)); };
        for (char ch : text) { if (ch == '"') quoted = !quoted; if (!quoted) { depth += ch == '{'; depth -= ch == '}'; if (ch == ';' && depth == 0) { statement(st); st.clear(); continue; } } st += ch; }
        if (st.find_first_not_of(" \t\n\r") != std::string::npos) errors.push_back("the file ends within a statement: " + st.substr(0, 80));
    }
};
// ---- numbers a mesher gives to the shapes of a .brep file
struct Brep
{
    TopTools_IndexedMapOfShape v, e, w, f, sh, so; TopoDS_Shape shape;
    void vertices(const TopoDS_Shape& s) { for (TopExp_Explorer x(s, TopAbs_VERTEX); x.More(); x.Next()) v.Add(x.Current()); }
    void edges(const TopoDS_Shape& s) { for (TopExp_Explorer x(s, TopAbs_EDGE); x.More(); x.Next()) if (!e.Contains(x.Current())) { e.Add(x.Current()); vertices(x.Current()); } }
    void wires(const TopoDS_Shape& s) { for (TopExp_Explorer x(s.Oriented(TopAbs_FORWARD), TopAbs_WIRE); x.More(); x.Next()) if (!w.Contains(x.Current())) { w.Add(x.Current()); edges(x.Current()); } }
    void faces(const TopoDS_Shape& s) { for (TopExp_Explorer x(s, TopAbs_FACE); x.More(); x.Next()) if (!f.Contains(x.Current())) { f.Add(x.Current()); wires(x.Current()); } }
    explicit Brep(const std::string& file)
    {
        BRep_Builder b; if (!BRepTools::Read(shape, file.c_str(), b)) return;
        for (TopExp_Explorer x(shape, TopAbs_SOLID); x.More(); x.Next()) if (!so.Contains(x.Current())) { so.Add(x.Current()); for (TopExp_Explorer y(x.Current(), TopAbs_SHELL); y.More(); y.Next()) if (!sh.Contains(y.Current())) { sh.Add(y.Current()); faces(y.Current()); } }
        faces(shape); edges(shape); vertices(shape);
    }
};
}
#endif
