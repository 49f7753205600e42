// A small serial stand-in for the part of the INMOST interface that anifem++/inmost_interface uses: it lets the
// enumeration and assembling code be run without that library. Elements, local and global numbers, holes in the local
// numbers, tags and sparse structures behave like INMOST's; there is one process, so nothing is a ghost.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstring>
#include <deque>
#include <iostream>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#define ENUMUNDEF UINT_MAX
typedef unsigned INMOST_DATA_ENUM_TYPE;
typedef double INMOST_DATA_REAL_TYPE;
typedef int INMOST_DATA_INTEGER_TYPE;
typedef int INMOST_MPI_Comm;
static const INMOST_MPI_Comm INMOST_MPI_COMM_WORLD = 0;
inline double Timer(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
namespace INMOST {
typedef unsigned HandleType;
typedef unsigned ElementType;
static const ElementType NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8, ESET = 16, MESH = 32;
enum DataType { DATA_REAL = 0, DATA_INTEGER = 1 };
inline ElementType ElementTypeFromDim(int d){ return 1u << d; }
inline int ElementNum(ElementType t){ for (int i = 0; i < 6; ++i) if (t == 1u << i) return i; assert(!"one element type"); return -1; }
typedef unsigned MarkerType;
inline MarkerType InvalidMarker(){ return 0; }
inline HandleType InvalidHandle(){ return 0; }
inline HandleType ComposeHandleNum(int num, int lid){ return ((unsigned)num << 28) + 1 + (unsigned)lid; }
inline int GetHandleElementNum(HandleType h){ return (int)((h - 1) >> 28); }
inline int GetHandleID(HandleType h){ return (int)((h - 1) & 0xfffffffu); }
inline bool isValidHandle(HandleType h){ return h != 0; }

class Mesh; class Node; class Edge; class Face; class Cell;
// data of one element: a view of the vector that holds it (resizable when the tag has no fixed size)
template<class T> class shell { std::vector<T>* v = nullptr; public: typedef T* iterator; shell() = default; explicit shell(std::vector<T>* v): v(v) {}
    T& operator[](size_t i) const { assert(v && i < v->size() && "index of the data of an element"); return (*v)[i]; } size_t size() const { return v ? v->size() : 0; } T* data() const { return v->data(); } T* begin() const { return v->data(); } T* end() const { return v->data() + v->size(); }
    T& back() const { assert(v && !v->empty()); return v->back(); } bool empty() const { return !v || v->empty(); } void resize(size_t n, T x = T()) const { v->resize(n, x); } void push_back(T x) const { v->push_back(x); } };
struct TagMemory { std::string name; DataType type; ElementType mask, sparse; unsigned size; Mesh* m; bool alive = true; std::array<std::vector<std::vector<double>>, 6> r; std::array<std::vector<std::vector<int>>, 6> i; std::array<std::vector<char>, 6> have; };
class Tag { TagMemory* mem; public: Tag(): mem(nullptr) {} explicit Tag(TagMemory* m): mem(m) {} Tag(const Tag& o): mem(o.mem) {} Tag& operator=(const Tag& o){ mem = o.mem; return *this; } ~Tag(){ mem = nullptr; }
    bool isValid() const { return mem != nullptr; } unsigned GetSize() const { return mem->size; } bool isDefinedMask(ElementType t) const { return (mem->mask & t) == t; } bool isDefined(ElementType t) const { return (mem->mask & t) != 0; } Mesh* GetMeshLink() const { return mem->m; } const std::string& GetTagName() const { return mem->name; } TagMemory* memory() const { return mem; } bool operator==(const Tag& o) const { return mem == o.mem; } };
class Storage { protected: Mesh* m; HandleType h; public: typedef double real; typedef int integer; typedef shell<double> real_array; typedef shell<int> integer_array;
    Storage(): m(nullptr), h(0) {} Storage(Mesh* m, HandleType h): m(m), h(h) {}
    HandleType GetHandle() const { return h; } Mesh* GetMeshLink() const { return m; } int GetElementNum() const { return GetHandleElementNum(h); } ElementType GetElementType() const { return 1u << GetElementNum(); } integer LocalID() const { return GetHandleID(h); } integer DataLocalID() const { return LocalID(); }
    inline bool isValid() const; inline real_array RealArray(const Tag& t) const; inline integer_array IntegerArray(const Tag& t) const; inline integer& Integer(const Tag& t) const; inline real& Real(const Tag& t) const; inline bool HaveData(const Tag& t) const; inline real_array RealArrayDV(const Tag& t) const;
    inline bool GetMarker(MarkerType k) const; inline void SetMarker(MarkerType k) const; inline void RemMarker(MarkerType k) const; };
template<class T> class ElementArray { Mesh* m = nullptr; std::vector<HandleType> v; public: ElementArray() = default; explicit ElementArray(Mesh* m, size_t n = 0): m(m), v(n, 0) {}
    T operator[](size_t i) const { assert(i < v.size()); return T(m, v[i]); } size_t size() const { return v.size(); } HandleType* data(){ return v.data(); } const HandleType* data() const { return v.data(); } Mesh* GetMeshLink() const { return m; } void push_back(HandleType h){ v.push_back(h); } void push_back(const Storage& e){ v.push_back(e.GetHandle()); } void reserve(size_t n){ v.reserve(n); } HandleType* begin(){ return v.data(); } HandleType* end(){ return v.data() + v.size(); } bool empty() const { return v.empty(); } };
class Element: public Storage { public: using Storage::Storage; typedef unsigned char Status; static const Status Owned = 1, Shared = 2, Ghost = 4;
    Status GetStatus() const { return Owned; } inline integer GlobalID() const; int GetElementDimension() const { return GetElementNum(); } inline bool Hidden() const; inline ElementArray<Node> getNodes() const; inline ElementArray<Cell> getCells() const; Element getAsElement() const { return *this; } inline Cell getAsCell() const; inline Face getAsFace() const; inline Node getAsNode() const;
    bool operator==(const Element& o) const { return m == o.m && h == o.h; } bool operator!=(const Element& o) const { return !(*this == o); } };
class Node: public Element { public: using Element::Element; inline real_array Coords() const; };
class Edge: public Element { public: using Element::Element; };
class Face: public Element { public: using Element::Element; };
class Cell: public Element { public: using Element::Element; inline double Volume() const; };
inline Cell Element::getAsCell() const { return Cell(m, h); }
inline Face Element::getAsFace() const { return Face(m, h); }
inline Node Element::getAsNode() const { return Node(m, h); }

class Mesh { public:
    typedef std::vector<HandleType> Adj;
    struct Slot { unsigned marks = 0; bool valid = true, hidden = false; int gid = -1; Adj low, high, nodes; std::vector<double> x; };
    std::array<std::deque<Slot>, 4> el; ElementType have_gid = NONE; std::vector<std::unique_ptr<TagMemory>> tags; Tag gid_tag; int exchanges = 0;
    Mesh(){ gid_tag = CreateTag("GLOBAL_ID", DATA_INTEGER, NODE|EDGE|FACE|CELL, NONE, 1); }
    Mesh(const Mesh&) = delete;
    // ---- building (not a part of INMOST's interface) ----
    HandleType add(int num, Slot s){ el[num].push_back(std::move(s)); return ComposeHandleNum(num, (int)el[num].size() - 1); }
    Slot& slot(HandleType h){ return el[GetHandleElementNum(h)][GetHandleID(h)]; } const Slot& slot(HandleType h) const { return el[GetHandleElementNum(h)][GetHandleID(h)]; }
    // ---- elements ----
    HandleType GetHandle() const { return ComposeHandleNum(5, 0); }
    bool isValidElement(int num, int lid) const { return num >= 0 && num < 4 && lid >= 0 && lid < (int)el[num].size() && el[num][lid].valid; }
    bool isValidElement(HandleType h) const { return h != 0 && isValidElement(GetHandleElementNum(h), GetHandleID(h)); }
    const Adj& LowConn(HandleType h) const { assert(isValidElement(h)); return slot(h).low; } const Adj& HighConn(HandleType h) const { assert(isValidElement(h)); return slot(h).high; }
    Element ElementByLocalID(ElementType t, int lid){ int n = ElementNum(t); return isValidElement(n, lid) ? Element(this, ComposeHandleNum(n, lid)) : Element(this, InvalidHandle()); }
    Cell CellByLocalID(int lid){ return isValidElement(3, lid) ? Cell(this, ComposeHandleNum(3, lid)) : Cell(this, InvalidHandle()); }
    int LastLocalID(ElementType t) const { return (int)el[ElementNum(t)].size(); } int CellLastLocalID() const { return LastLocalID(CELL); } int NodeLastLocalID() const { return LastLocalID(NODE); }
    int NextLocalID(ElementType t, int k) const { int n = ElementNum(t); do ++k; while (k < LastLocalID(t) && !el[n][k].valid); return k; } int FirstLocalID(ElementType t) const { return NextLocalID(t, -1); }
    int NumberOf(ElementType t) const { int r = 0; for (int n = 0; n < 4; ++n) if (t >> n & 1) for (auto& s: el[n]) r += s.valid; return r; } int TotalNumberOf(ElementType t) const { return NumberOf(t); }
    Node NodeByLocalID(int lid){ return isValidElement(0, lid) ? Node(this, ComposeHandleNum(0, lid)) : Node(this, InvalidHandle()); }
    int NumberOfNodes() const { return NumberOf(NODE); } int NumberOfEdges() const { return NumberOf(EDGE); } int NumberOfFaces() const { return NumberOf(FACE); } int NumberOfCells() const { return NumberOf(CELL); }
    static void Initialize(int*, char***){} static void Finalize(){} void SetCommunicator(INMOST_MPI_Comm){} void ResolveShared(){} void Integrate(double*, int) const {}
    unsigned markers = 0; MarkerType CreateMarker(){ for (int k = 0; k < 31; ++k) if (!(markers >> k & 1)){ markers |= 1u << k; return 1u << k; } return InvalidMarker(); }
    void ReleaseMarker(MarkerType k){ assert(k && (markers & k) == k && "releasing a marker that was not created"); for (auto& v: el) for (auto& s: v) assert(!(s.valid && (s.marks & k)) && "an element keeps a marker that is released"); markers &= ~k; }
    void MarkBoundaryFaces(MarkerType k){ assert((markers & k) == k); std::map<HandleType, int> up; for (auto& c: el[3]) if (c.valid) for (auto f: c.low) ++up[f]; for (auto& u: up) if (u.second == 1) slot(u.first).marks |= k; }
    Node CreateNode(const double* x){ Slot s; s.x.assign(x, x + 3); return Node(this, add(0, s)); }
    std::map<std::vector<HandleType>, HandleType> made; HandleType part(int d, std::vector<HandleType> v){ std::sort(v.begin(), v.end()); if (d == 0) return v[0]; auto it = made.find(v); if (it != made.end()) return it->second; Slot s; s.nodes = v; for (size_t k = 0; k < v.size(); ++k){ auto f = v; f.erase(f.begin() + k); s.low.push_back(part(d - 1, f)); } return made[v] = add(d, s); }
    Cell CreateCell(const ElementArray<Node>& v, const int* face_nodes, const int* num, int nf){ assert(nf == 4 && "a tetrahedron has four faces"); std::vector<HandleType> all; std::set<std::vector<HandleType>> faces; std::map<std::vector<HandleType>, int> edges; for (int k = 0; k < 12; ++k){ assert(num[k/3] == 3); HandleType h = v[face_nodes[k]].GetHandle(); if (std::find(all.begin(), all.end(), h) == all.end()) all.push_back(h); }
        assert(all.size() == 4 && "nodes of a tetrahedron"); for (int k = 0; k < 4; ++k){ std::vector<HandleType> f; for (int j = 0; j < 3; ++j) f.push_back(v[face_nodes[3*k + j]].GetHandle()); std::sort(f.begin(), f.end()); faces.insert(f); } assert(faces.size() == 4 && "faces of a tetrahedron"); Slot s; s.nodes = s.high = all; for (auto& f: faces) s.low.push_back(part(2, f)); auto key = all; std::sort(key.begin(), key.end()); assert(!made.count(key) && "the cell exists"); HandleType h = add(3, s); made[key] = h; return Cell(this, h); }
    int GetProcessorsNumber() const { return 1; } int GetProcessorRank() const { return 0; }
    template<class E> class iter { Mesh* m = nullptr; ElementType t = 0; int num = 4, lid = 0; mutable E cur; void settle(){ while (num < 4){ if ((t >> num & 1) && lid < (int)m->el[num].size()){ if (m->el[num][lid].valid) return; ++lid; } else { ++num; lid = 0; } } } public:
        typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E* pointer; typedef E& reference;
        iter() = default; iter(Mesh* m, ElementType t): m(m), t(t), num(0), lid(0) { settle(); } E& operator*() const { cur = E(m, ComposeHandleNum(num, lid)); return cur; } E* operator->() const { return &**this; } iter& operator++(){ ++lid; settle(); return *this; } iter operator++(int){ iter r(*this); ++*this; return r; }
        bool operator==(const iter& o) const { return num == o.num && (num == 4 || lid == o.lid); } bool operator!=(const iter& o) const { return !(*this == o); } };
    typedef iter<Element> iteratorElement; typedef iter<Cell> iteratorCell; typedef iter<Node> iteratorNode; typedef iter<Face> iteratorFace; iteratorFace BeginFace(){ return iteratorFace(this, FACE); } iteratorFace EndFace(){ return iteratorFace(); }
    iteratorElement BeginElement(ElementType t){ return iteratorElement(this, t & 15); } iteratorElement EndElement(){ return iteratorElement(); } iteratorCell BeginCell(){ return iteratorCell(this, CELL); } iteratorCell EndCell(){ return iteratorCell(); } iteratorNode BeginNode(){ return iteratorNode(this, NODE); } iteratorNode EndNode(){ return iteratorNode(); }
    // ---- global numbers ----
    bool HaveGlobalID(ElementType t) const { assert(ElementNum(t) < 4); return (have_gid & t) == t; }
    void AssignGlobalID(ElementType t){ for (int n = 0; n < 4; ++n) if (t >> n & 1){ for (int l = 0; l < (int)el[n].size(); ++l) if (el[n][l].valid) data<int>(gid_tag, ComposeHandleNum(n, l))[0] = el[n][l].gid < 0 ? l : el[n][l].gid; have_gid |= 1u << n; } }
    Tag GlobalIDTag() const { return gid_tag; }
    // ---- tags ----
    bool HaveTag(const std::string& n) const { for (auto& t: tags) if (t->alive && t->name == n) return true; return false; }
    Tag GetTag(const std::string& n) const { for (auto& t: tags) if (t->alive && t->name == n) return Tag(t.get()); assert(!"no such tag"); return Tag(); }
    Tag CreateTag(const std::string& n, DataType ty, ElementType mask, ElementType sparse, unsigned size = ENUMUNDEF){ for (auto& t: tags) if (t->alive && t->name == n){ assert(t->type == ty && t->size == size && t->m == this && "the tag exists"); for (int k = 0; k < 6; ++k) if ((mask >> k & 1) && !(t->mask >> k & 1)){ t->mask |= 1u << k; if (sparse >> k & 1) t->sparse |= 1u << k; reserve(*t, k); } return Tag(t.get()); } tags.emplace_back(new TagMemory()); auto* t = tags.back().get(); t->name = n; t->type = ty; t->mask = mask; t->sparse = sparse; t->size = size; t->m = this; for (int k = 0; k < 6; ++k) if (mask >> k & 1) reserve(*t, k); return Tag(t); }
    Tag DeleteTag(Tag t, ElementType mask = 63){ (void)mask; assert(t.isValid() && t.memory()->alive && "deleting a tag that does not exist"); t.memory()->alive = false; for (auto& x: t.memory()->r) x.clear(); for (auto& x: t.memory()->i) x.clear(); return Tag(); }
    size_t live_tags() const { size_t n = 0; for (auto& t: tags) n += t->alive; return n; }
    void reserve(TagMemory& t, int k){ size_t n = k < 4 ? el[k].size() : 1; if (t.type == DATA_REAL) t.r[k].resize(n, std::vector<double>(t.size == ENUMUNDEF ? 0 : t.size, 0.0)); else t.i[k].resize(n, std::vector<int>(t.size == ENUMUNDEF ? 0 : t.size, 0)); t.have[k].resize(n, (t.sparse >> k & 1) ? 0 : 1); }
    template<class T> static std::vector<std::vector<T>>& pool(TagMemory& t, int k);
    template<class T> shell<T> data(const Tag& t, HandleType h){ assert(t.isValid() && t.memory()->alive && t.memory()->m == this && "a tag of this mesh"); int k = GetHandleElementNum(h); assert((t.memory()->mask >> k & 1) && "the tag is not defined on this type of elements"); assert(k == 5 || isValidElement(h)); reserve_if(*t.memory(), k); auto& hv = t.memory()->have[k][GetHandleID(h)]; if (!hv) hv = 1; return shell<T>(&pool<T>(*t.memory(), k)[GetHandleID(h)]); }
    void reserve_if(TagMemory& t, int k){ size_t n = k < 4 ? el[k].size() : 1; if (t.have[k].size() < n) reserve(t, k); }
    Storage::integer_array IntegerArray(HandleType h, const Tag& t){ assert(t.memory()->type == DATA_INTEGER); return data<int>(t, h); } Storage::real_array RealArray(HandleType h, const Tag& t){ assert(t.memory()->type == DATA_REAL); return data<double>(t, h); }
    bool HaveData(HandleType h, const Tag& t) const { int k = GetHandleElementNum(h), l = GetHandleID(h); return t.isValid() && t.memory()->alive && (t.memory()->mask >> k & 1) && l < (int)t.memory()->have[k].size() && t.memory()->have[k][l]; }
    void ExchangeData(const Tag& t, ElementType mask){ assert(t.isValid() && t.isDefinedMask(mask)); ++exchanges; } void ExchangeData(const std::vector<Tag>& ts, ElementType mask){ (void)mask; for (auto& t: ts) assert(t.isValid()); ++exchanges; }
};
template<> inline std::vector<std::vector<double>>& Mesh::pool<double>(TagMemory& t, int k){ return t.r[k]; }
template<> inline std::vector<std::vector<int>>& Mesh::pool<int>(TagMemory& t, int k){ return t.i[k]; }
inline bool Storage::isValid() const { return m && h && (GetHandleElementNum(h) == 5 || m->isValidElement(h)); }
inline Storage::real_array Storage::RealArray(const Tag& t) const { return m->RealArray(h, t); }
inline Storage::integer_array Storage::IntegerArray(const Tag& t) const { return m->IntegerArray(h, t); }
inline Storage::integer& Storage::Integer(const Tag& t) const { return m->IntegerArray(h, t)[0]; }
inline Storage::real& Storage::Real(const Tag& t) const { return m->RealArray(h, t)[0]; }
inline bool Storage::HaveData(const Tag& t) const { return m->HaveData(h, t); }
inline Storage::real_array Storage::RealArrayDV(const Tag& t) const { assert(t.GetSize() == ENUMUNDEF && "an array of variable size"); return m->RealArray(h, t); }
inline bool Storage::GetMarker(MarkerType k) const { return m->slot(h).marks & k; }
inline void Storage::SetMarker(MarkerType k) const { m->slot(h).marks |= k; }
inline void Storage::RemMarker(MarkerType k) const { m->slot(h).marks &= ~k; }
inline ElementArray<Cell> Element::getCells() const { ElementArray<Cell> r(m); for (int l = 0; l < (int)m->el[3].size(); ++l) if (m->el[3][l].valid){ auto c = ComposeHandleNum(3, l); bool in = c == h; if (GetElementNum() == 0) in = std::count(m->el[3][l].nodes.begin(), m->el[3][l].nodes.end(), h); if (GetElementNum() == 2) in = std::count(m->el[3][l].low.begin(), m->el[3][l].low.end(), h); if (in) r.push_back(c); } return r; }
inline Storage::integer Element::GlobalID() const { assert(m->HaveGlobalID(GetElementType()) && "global numbers were not assigned"); return m->data<int>(m->gid_tag, h)[0]; }
inline bool Element::Hidden() const { return m->slot(h).hidden; }
inline ElementArray<Node> Element::getNodes() const { ElementArray<Node> r(m); if (GetElementNum() == 0) r.push_back(h); else for (auto n: m->slot(h).nodes) r.push_back(n); return r; }
inline Storage::real_array Node::Coords() const { return real_array(&m->slot(h).x); }

inline double Cell::Volume() const { auto& n = m->slot(h).nodes; assert(n.size() == 4); long double a[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) a[i][k] = (long double)m->slot(n[i+1]).x[k] - m->slot(n[0]).x[k]; return (double)(std::fabs(a[0][0]*(a[1][1]*a[2][2] - a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2] - a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1] - a[1][1]*a[2][0]))/6); }
namespace Sparse {
class Row { public: struct entry { INMOST_DATA_ENUM_TYPE first; INMOST_DATA_REAL_TYPE second; bool operator<(const entry& o) const { return first < o.first || (first == o.first && second < o.second); } }; typedef std::vector<entry> Entries; typedef Entries::iterator iterator; typedef Entries::const_iterator const_iterator; Entries d;
    iterator Begin(){ return d.begin(); } iterator End(){ return d.end(); } const_iterator Begin() const { return d.begin(); } const_iterator End() const { return d.end(); } INMOST_DATA_ENUM_TYPE Size() const { return (unsigned)d.size(); } bool Empty() const { return d.empty(); }
    INMOST_DATA_REAL_TYPE& operator[](INMOST_DATA_ENUM_TYPE i){ for (auto& e: d) if (e.first == i) return e.second; d.push_back({i, 0.0}); return d.back().second; }
    INMOST_DATA_REAL_TYPE operator[](INMOST_DATA_ENUM_TYPE i) const { for (auto& e: d) if (e.first == i) return e.second; assert(!"no such column"); return 0; }
    INMOST_DATA_REAL_TYPE get_safe(INMOST_DATA_ENUM_TYPE i) const { for (auto& e: d) if (e.first == i) return e.second; return 0.0; }
    INMOST_DATA_ENUM_TYPE& GetIndex(INMOST_DATA_ENUM_TYPE k){ assert(k < d.size()); return d[k].first; } INMOST_DATA_REAL_TYPE& GetValue(INMOST_DATA_ENUM_TYPE k){ assert(k < d.size()); return d[k].second; } INMOST_DATA_ENUM_TYPE GetIndex(INMOST_DATA_ENUM_TYPE k) const { assert(k < d.size()); return d[k].first; } INMOST_DATA_REAL_TYPE GetValue(INMOST_DATA_ENUM_TYPE k) const { assert(k < d.size()); return d[k].second; }
    void Push(INMOST_DATA_ENUM_TYPE i, INMOST_DATA_REAL_TYPE v){ d.push_back({i, v}); } void Resize(INMOST_DATA_ENUM_TYPE n){ d.resize(n); } void Swap(Row& o){ d.swap(o.d); } void Clear(){ d.clear(); } };
template<class T> struct Interval { INMOST_DATA_ENUM_TYPE b = 0, e = 0; std::deque<T> d; void set(INMOST_DATA_ENUM_TYPE nb, INMOST_DATA_ENUM_TYPE ne){ if (nb == b && ne == e && d.size() == ne - nb) return; std::deque<T> n(ne - nb); for (auto i = std::max(b, nb); i < std::min(e, ne); ++i) n[i - nb] = d[i - b]; d.swap(n); b = nb; e = ne; } T& at(INMOST_DATA_ENUM_TYPE i){ assert(i >= b && i < e && "index of a row"); return d[i - b]; } const T& at(INMOST_DATA_ENUM_TYPE i) const { assert(i >= b && i < e && "index of a row"); return d[i - b]; } };
class Matrix { Interval<Row> r; public: Matrix() = default; explicit Matrix(const std::string&){} void SetInterval(INMOST_DATA_ENUM_TYPE b, INMOST_DATA_ENUM_TYPE e){ r.set(b, e); } Row& operator[](INMOST_DATA_ENUM_TYPE i){ return r.at(i); } const Row& operator[](INMOST_DATA_ENUM_TYPE i) const { return r.at(i); } INMOST_DATA_ENUM_TYPE GetFirstIndex() const { return r.b; } INMOST_DATA_ENUM_TYPE GetLastIndex() const { return r.e; } INMOST_DATA_ENUM_TYPE Size() const { return r.e - r.b; } void Clear(){ r = Interval<Row>(); } };
class Vector { Interval<double> r; public: Vector() = default; explicit Vector(const std::string&){} void SetInterval(INMOST_DATA_ENUM_TYPE b, INMOST_DATA_ENUM_TYPE e){ r.set(b, e); } double& operator[](INMOST_DATA_ENUM_TYPE i){ return r.at(i); } double operator[](INMOST_DATA_ENUM_TYPE i) const { return r.at(i); } INMOST_DATA_ENUM_TYPE GetFirstIndex() const { return r.b; } INMOST_DATA_ENUM_TYPE GetLastIndex() const { return r.e; } INMOST_DATA_ENUM_TYPE Size() const { return r.e - r.b; } void Clear(){ r = Interval<double>(); } };
class LockService { INMOST_DATA_ENUM_TYPE b = 0; std::deque<std::mutex> l; public: bool HaveLocks() const { return !l.empty(); } void SetInterval(INMOST_DATA_ENUM_TYPE beg, INMOST_DATA_ENUM_TYPE end){ b = beg; l.clear(); l.resize(end - beg); } bool Lock(INMOST_DATA_ENUM_TYPE i){ assert(i >= b && i - b < l.size()); l[i - b].lock(); return true; } bool UnLock(INMOST_DATA_ENUM_TYPE i){ assert(i >= b && i - b < l.size()); l[i - b].unlock(); return true; } };
}
// a direct solver in place of the iterative ones
class Solver { std::vector<std::vector<long double>> a; unsigned b0 = 0; bool set = false, ok = false; public: typedef std::string Type; static const std::string INNER_ILU2, INNER_DDPQILUC, INNER_MPTILUC, INNER_MPTILU2;
    struct Shown { bool solved = true; int its = 1; double res = 0, prec = 0, iter = 0; std::string why; }; Shown show; bool shown = false;
    explicit Solver(const std::string& = "inner_ilu2", const std::string& = ""){} static void Initialize(int*, char***, const char* = ""){} static void Finalize(){} void SetParameterReal(const std::string&, double){} void SetParameter(const std::string&, const std::string&){}
    void SetMatrix(Sparse::Matrix& m){ b0 = m.GetFirstIndex(); unsigned n = m.Size(); a.assign(n, std::vector<long double>(n, 0)); for (unsigned i = 0; i < n; ++i) for (auto& e: m[b0 + i].d){ assert(e.first >= b0 && e.first - b0 < n); a[i][e.first - b0] += e.second; } set = true; }
    bool Solve(Sparse::Vector& r, Sparse::Vector& x){ assert(set); unsigned n = (unsigned)a.size(); assert(r.Size() == n); if (x.Size() != n){ assert(x.Size() == 0); x.SetInterval(b0, b0 + n); } std::vector<std::vector<long double>> m(a); std::vector<long double> y(n); for (unsigned i = 0; i < n; ++i) y[i] = r[b0 + i]; ok = true;
        for (unsigned k = 0; k < n && ok; ++k){ unsigned p = k; for (unsigned i = k; i < n; ++i) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i; if (!(std::fabs(m[p][k]) > 1e-14L)){ ok = false; break; } m[k].swap(m[p]); std::swap(y[k], y[p]); for (unsigned i = k + 1; i < n; ++i) if (m[i][k] != 0){ long double f = m[i][k]/m[k][k]; for (unsigned j = k; j < n; ++j) m[i][j] -= f*m[k][j]; y[i] -= f*y[k]; } }
        if (ok) for (unsigned k = n; k-- > 0;){ for (unsigned j = k + 1; j < n; ++j) y[k] -= m[k][j]*y[j]; y[k] /= m[k][k]; x[b0 + k] = (double)y[k]; } return ok; }
    bool IsSolved() const { return shown ? show.solved : ok; } int Iterations() const { return shown ? show.its : 1; } double Residual() const { return show.res; } double PreconditionerTime() const { return show.prec; } double IterationsTime() const { return show.iter; } std::string GetReason() const { return shown ? show.why : "singular matrix"; } std::string ReturnReason() const { return GetReason(); } void Clear(){ a.clear(); set = false; } };
inline const std::string Solver::INNER_ILU2 = "inner_ilu2", Solver::INNER_DDPQILUC = "inner_ddpqiluc2", Solver::INNER_MPTILUC = "inner_mptiluc", Solver::INNER_MPTILU2 = "inner_mptilu2";
}
