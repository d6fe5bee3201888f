#pragma once
#include "gmshMesh.hpp"
namespace gmsh {
class Data
{
    size_t idx; std::vector<double> v;
  public:
    Data(size_t index, const std::vector<double>& d) : idx(index), v(d) {}
    size_t getIndex() const { return idx; }
    const std::vector<double>& getData() const { return v; }
};
class SubData
{
    std::vector<double> v; Node n;
  public:
    SubData(const std::vector<double>& d, const Node& node) : v(d), n(node) {}
    const std::vector<double>& getData() const { return v; }
    const Node& getNode() const { return n; }
};
class NodeData
{
  public:
    size_t comps; double time; std::string title; std::vector<Data> data; std::vector<SubData> sub;
    NodeData(size_t nc, double t, const std::string& ttl, const std::vector<Data>& d, const std::vector<SubData>& s) : comps(nc), time(t), title(ttl), data(d), sub(s) {}
    void saveNodeData(const std::string& file, const Gmesh& m) const
    { Written w; w.file = file; w.view = title; w.comps = comps; w.mesh = &m; w.data = this; if (sink()) sink()(w); }
};
}
