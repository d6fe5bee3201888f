/* Stand-in for the gmsh_tools library (not installed): the same classes, kept in
 * memory; what would be written to a file is handed to gmsh::sink(). */
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>
namespace gmsh {
class Node
{
    std::array<double, 3> c{}; size_t idx = 0, ref = 0;
  public:
    Node() {}
    Node(const std::array<double, 3>& coor, size_t index, size_t r) : c(coor), idx(index), ref(r) {}
    std::array<double, 3> getCoordinate() const { return c; }
    size_t getIndex() const { return idx; }
    size_t getRef() const { return ref; }
};
class Element
{
  protected:
    std::vector<size_t> n; size_t idx = 0;
  public:
    Element() {}
    Element(const std::vector<size_t>& nodes, size_t index, size_t, size_t) : n(nodes), idx(index) {}
    Element(size_t node, size_t index, size_t, size_t) : n(1, node), idx(index) {}
    std::vector<size_t> getNodes() const { return n; }
    size_t getIndex() const { return idx; }
};
struct Vertice : Element { using Element::Element; };
struct Edge : Element { using Element::Element; };
struct Triangle : Element { using Element::Element; };
struct Quadrangle : Element { using Element::Element; };
struct Tetrahedron : Element { using Element::Element; };
struct Hexahedron : Element { using Element::Element; };
class Gmesh;
struct Written { std::string file, view; size_t comps = 0; const Gmesh* mesh = nullptr; const class NodeData* data = nullptr; };
inline std::function<void(const Written&)>& sink() { static std::function<void(const Written&)> f; return f; }
class Gmesh
{
    size_t dim = 0;
    std::vector<Node> nodes;
    std::vector<Element> order;
  public:
    std::vector<Vertice> vertices; std::vector<Edge> edges; std::vector<Triangle> triangles;
    std::vector<Quadrangle> quads; std::vector<Tetrahedron> tets; std::vector<Hexahedron> hexas;
    Gmesh() {}
    Gmesh(size_t d) : dim(d) {}
    size_t getDim() const { return dim; }
    size_t getNumberofNodes() const { return nodes.size(); }
    size_t getNumberofElements() const { return order.size(); }
    const std::vector<Edge>& getEdges() const { return edges; }
    const std::vector<Node>& getNodes() const { return nodes; }
    Node getNode(size_t i) const { return nodes.at(i); }
    void addNode(const Node& x) { nodes.push_back(x); }
    void addVertice(const Vertice& e) { vertices.push_back(e); order.push_back(e); }
    void addEdge(const Edge& e) { edges.push_back(e); order.push_back(e); }
    void addTriangle(const Triangle& e) { triangles.push_back(e); order.push_back(e); }
    void addQuadrangle(const Quadrangle& e) { quads.push_back(e); order.push_back(e); }
    void addTetrahedron(const Tetrahedron& e) { tets.push_back(e); order.push_back(e); }
    void addHexahedron(const Hexahedron& e) { hexas.push_back(e); order.push_back(e); }
    void writeGmesh(const std::string& file, size_t = 2) const { Written w; w.file = file; w.mesh = this; if (sink()) sink()(w); }
};
}
