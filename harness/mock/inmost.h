// In-memory stand-in for the part of INMOST used by anifem++/inmost_interface.
// It implements the documented behaviour of the mesh, tag and sparse containers; every process of a
// distributed mesh is one coroutine of World, collective calls are the points where they meet.
#ifndef MOCK_INMOST_H
#define MOCK_INMOST_H
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <ucontext.h>
#include <utility>
#include <vector>

#define INMOST_DATA_ENUM_TYPE uint32_t
#define INMOST_DATA_INTEGER_TYPE int
#define INMOST_DATA_REAL_TYPE double
#ifndef ENUMUNDEF
#define ENUMUNDEF (std::numeric_limits<INMOST_DATA_ENUM_TYPE>::max())
#endif
#ifdef USE_MPI // the message passing interface; processes are the coroutines of World
typedef int MPI_Datatype; typedef int MPI_Op;
#ifdef MOCK_COMM_POINTER
typedef struct mock_comm* MPI_Comm;
#else
typedef int MPI_Comm;
#endif
typedef MPI_Comm INMOST_MPI_Comm;
#define MPI_COMM_WORLD ((MPI_Comm)91)
#define MPI_DOUBLE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_LONG_LONG 5
#define MPI_LONG_LONG_INT 5
#define MPI_INT64_T 5
#define MPI_UNSIGNED 6
#define MPI_UNSIGNED_LONG 7
#define MPI_INT32_T 3
#define MPI_SUM 1
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_PROD 6
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)1)
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c);
inline int MPI_Comm_rank(MPI_Comm, int* r);
inline int MPI_Comm_size(MPI_Comm, int* r);
#else
typedef int INMOST_MPI_Comm;
#endif
inline double Timer() { static double t = 0; return t += 1e-6; }

namespace INMOST {
typedef INMOST_DATA_ENUM_TYPE enumerator;
typedef unsigned char ElementType;
static const ElementType NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8, ESET = 16, MESH = 32;
inline ElementType ElementTypeFromDim(int d) { return ElementType(1 << d); }
inline int ElementNum(ElementType t) { int r = 0; while (t > 1) { t >>= 1; ++r; } return r; }
typedef uint32_t HandleType;
inline HandleType InvalidHandle() { return 0; }
inline bool isValidHandle(HandleType h) { return h > 0; }
inline HandleType ComposeHandleNum(int num, int lid) { return (HandleType(num) << 28) + 1 + HandleType(lid); }
inline HandleType ComposeHandle(ElementType t, int lid) { return ComposeHandleNum(ElementNum(t), lid); }
inline int GetHandleElementNum(HandleType h) { return int((h - 1) >> 28); }
inline int GetHandleID(HandleType h) { return int((h - 1) & ((1u << 28) - 1)); }
inline ElementType GetHandleElementType(HandleType h) { return ElementType(1 << GetHandleElementNum(h)); }
typedef unsigned MarkerType; inline MarkerType InvalidMarker() { return 0; }
enum DataType { DATA_REAL = 0, DATA_INTEGER = 1, DATA_BULK = 2, DATA_REFERENCE = 3 };
class Mesh;

struct TagMemory {
    std::string name; DataType type; ElementType mask, sparse; enumerator size; Mesh* mesh;
    std::array<std::vector<std::vector<double>>, 6> r; std::array<std::vector<std::vector<int>>, 6> i;
    std::array<std::set<int>, 6> present;
};
class Tag {
public:
    TagMemory* mem = nullptr;
    Tag() {}
    Tag(const Tag& o): mem(o.mem) {}
    Tag& operator=(const Tag& o) { mem = o.mem; return *this; }
    ~Tag() {}
    bool isValid() const { return mem != nullptr; }
    enumerator GetSize() const { return mem->size; }
    std::string GetTagName() const { return mem->name; }
    DataType GetDataType() const { return mem->type; }
    bool isDefined(ElementType t) const { return (mem->mask & t) != 0; }
    bool isDefinedMask(ElementType t) const { return (mem->mask & t) == t; }
    bool isDefinedByDim(int d) const { return isDefined(ElementTypeFromDim(d)); }
    bool isSparse(ElementType t) const { return (mem->sparse & t) != 0; }
    Mesh* GetMeshLink() const { return mem->mesh; }
    bool operator==(const Tag& o) const { return mem == o.mem; }
    bool operator!=(const Tag& o) const { return mem != o.mem; }
    bool operator<(const Tag& o) const { return mem < o.mem; }
};
template <class T> class data_array {
    std::vector<T>* v = nullptr; bool fixed = true;
public:
    typedef T* iterator; typedef const T* const_iterator; typedef unsigned size_type; typedef T value_type;
    data_array() {}
    data_array(std::vector<T>* v, bool fixed): v(v), fixed(fixed) {}
    data_array(const data_array&) = default;
    data_array& operator=(const data_array& o) { v = o.v; fixed = o.fixed; return *this; }
    T& operator[](size_t n) const { if (!v || n >= v->size()) throw std::out_of_range("mock: index beyond the data of a tag"); return (*v)[n]; }
    T& at(size_t n) const { return (*this)[n]; }
    size_type size() const { return v ? unsigned(v->size()) : 0; }
    bool empty() const { return size() == 0; }
    T* data() const { return v ? v->data() : nullptr; }
    T* begin() const { return data(); }
    T* end() const { return data() + size(); }
    void resize(size_t n, T x = T()) { if (fixed) throw std::runtime_error("mock: resize of fixed data"); v->resize(n, x); }
    void push_back(const T& x) { if (fixed) throw std::runtime_error("mock: push_back to fixed data"); v->push_back(x); }
    T& back() const { return (*this)[size() - 1]; }
    T& front() const { return (*this)[0]; }
};
class Node; class Edge; class Face; class Cell; class Element;
template <class E> class ElementArray;
class Storage {
protected:
    Mesh* m_link = nullptr; HandleType handle = 0;
public:
    typedef double real; typedef int integer; typedef INMOST_DATA_ENUM_TYPE enumerator;
    typedef data_array<double> real_array; typedef data_array<int> integer_array;
    Storage() {}
    Storage(Mesh* m, HandleType h): m_link(m), handle(h) {}
    Mesh* GetMeshLink() const { return m_link; }
    HandleType GetHandle() const { return handle; }
    ElementType GetElementType() const { return GetHandleElementType(handle); }
    int GetElementNum() const { return GetHandleElementNum(handle); }
    int LocalID() const { return GetHandleID(handle); }
    int DataLocalID() const { return LocalID(); }
    inline bool isValid() const;
    inline real_array RealArray(const Tag& t) const;
    inline integer_array IntegerArray(const Tag& t) const;
    real& Real(const Tag& t) const { return RealArray(t)[0]; }
    integer& Integer(const Tag& t) const { return IntegerArray(t)[0]; }
    inline bool HaveData(const Tag& t) const;
    real_array RealArrayDV(const Tag& t) const { if (t.GetSize() != ENUMUNDEF) throw std::runtime_error("mock: data of fixed size taken for data of variable size"); return RealArray(t); }
    real_array RealArrayDF(const Tag& t) const { if (t.GetSize() == ENUMUNDEF) throw std::runtime_error("mock: data of variable size taken for data of fixed size"); return RealArray(t); }
    inline bool GetMarker(unsigned k) const; inline void SetMarker(unsigned k); inline void RemMarker(unsigned k);
    bool operator==(const Storage& o) const { return handle == o.handle; }
    bool operator!=(const Storage& o) const { return handle != o.handle; }
    bool operator<(const Storage& o) const { return handle < o.handle; }
};
class Element: public Storage {
public:
    typedef unsigned char Status; typedef unsigned char GeometricType;
    static const Status Owned = 1, Shared = 2, Ghost = 4, Any = 0;
    typedef std::vector<HandleType> adj_type;
    Element() {}
    Element(Mesh* m, HandleType h): Storage(m, h) {}
    Element(Mesh* m, HandleType* h): Storage(m, *h) {}
    int GetElementDimension() const { return GetElementNum(); }
    inline int GlobalID() const;
    inline Status GetStatus() const;
    inline ElementArray<Node> getNodes() const; inline ElementArray<Edge> getEdges() const; inline ElementArray<Face> getFaces() const; inline ElementArray<Cell> getCells() const;
    Element getAsElement() const { return *this; }
    inline Node getAsNode() const; inline Edge getAsEdge() const; inline Face getAsFace() const; inline Cell getAsCell() const;
    inline double Volume() const; inline bool Hidden() const; inline bool Boundary() const;
};
class Node: public Element { public: Node() {} Node(Mesh* m, HandleType h): Element(m, h) {} Node(const Element& e): Element(e.GetMeshLink(), e.GetHandle()) {} inline Storage::real_array Coords() const; Node& self() { return *this; } };
class Edge: public Element { public: Edge() {} Edge(Mesh* m, HandleType h): Element(m, h) {} Edge(const Element& e): Element(e.GetMeshLink(), e.GetHandle()) {} inline Node getBeg() const; inline Node getEnd() const; Edge& self() { return *this; } };
class Face: public Element { public: Face() {} Face(Mesh* m, HandleType h): Element(m, h) {} Face(const Element& e): Element(e.GetMeshLink(), e.GetHandle()) {} inline Cell BackCell() const; inline Cell FrontCell() const; Face& self() { return *this; } };
class Cell: public Element { public: Cell() {} Cell(Mesh* m, HandleType h): Element(m, h) {} Cell(const Element& e): Element(e.GetMeshLink(), e.GetHandle()) {} Cell(Mesh* m, const Element& e): Element(m, e.GetHandle()) {} inline double Volume() const; Cell& self() { return *this; } };
inline Node Element::getAsNode() const { return Node(*this); }
inline Edge Element::getAsEdge() const { return Edge(*this); }
inline Face Element::getAsFace() const { return Face(*this); }
inline Cell Element::getAsCell() const { return Cell(*this); }

template <class E> class ElementArray {
    Mesh* m = nullptr; std::vector<HandleType> h;
public:
    ElementArray() {}
    ElementArray(Mesh* m, size_t n = 0, HandleType v = 0): m(m), h(n, v) {}
    Mesh* GetMeshLink() const { return m; }
    void SetMeshLink(Mesh* mm) { m = mm; }
    size_t size() const { return h.size(); }
    bool empty() const { return h.empty(); }
    void resize(size_t n) { h.resize(n); }
    void reserve(size_t n) { h.reserve(n); }
    void clear() { h.clear(); }
    void push_back(const Storage& e) { if (!m) m = e.GetMeshLink(); h.push_back(e.GetHandle()); }
    void push_back(HandleType x) { h.push_back(x); }
    HandleType* data() { return h.data(); }
    const HandleType* data() const { return h.data(); }
    HandleType& at(size_t i) { return h.at(i); }
    HandleType at(size_t i) const { return h.at(i); }
    E operator[](size_t i) const { return E(m, h.at(i)); }
    class iterator { const ElementArray* a; size_t i; mutable E cur; public: iterator(const ElementArray* a, size_t i): a(a), i(i) {} E operator*() const { return (*a)[i]; } E* operator->() const { cur = (*a)[i]; return &cur; } iterator& operator++() { ++i; return *this; } bool operator!=(const iterator& o) const { return i != o.i; } bool operator==(const iterator& o) const { return i == o.i; } };
    iterator begin() const { return iterator(this, 0); }
    iterator end() const { return iterator(this, h.size()); }
};

/// Element record
struct ElemRec { bool alive = true; unsigned marks = 0; std::vector<HandleType> low, high; int gid = -1; Element::Status st = Element::Owned; std::array<double, 3> x{{0, 0, 0}}; };

/// Processes as coroutines: each one runs until it reaches a collective call, which completes when all have reached it.
class World {
public:
    struct Co { ucontext_t c; std::vector<char> stack; bool done = false, waiting = false; std::exception_ptr err; };
    ucontext_t main_; std::vector<std::unique_ptr<Co>> co; int cur = -1; std::function<void(int)> body; unsigned long long rounds = 0; int nproc = 1;
    std::vector<Mesh*> mesh; ///< one per process
    static World*& current() { static World* w = nullptr; return w; }
    static void entry() { World* w = current(); Co& c = *w->co[w->cur]; try { w->body(w->cur); } catch (...) { c.err = std::current_exception(); } c.done = true; swapcontext(&c.c, &w->main_); }
    /// called by a process at a collective; the last one to arrive performs nothing here, run() does
    void collective(std::function<void()> act) { if (nproc == 1 || cur < 0) { if (act) act(); return; } Co& c = *co[cur]; pending.resize(nproc); pending[cur] = act; c.waiting = true; swapcontext(&c.c, &main_); }
    std::vector<std::function<void()>> pending;
    bool mismatch = false; ///< some processes finished while others waited in a collective
    void run(int n, std::function<void(int)> f) {
        World* prev = current(); current() = this; nproc = n; body = f; co.clear(); pending.assign(n, nullptr); mismatch = false;
        for (int i = 0; i < n; ++i) { co.emplace_back(new Co); Co& c = *co[i]; c.stack.resize(1 << 20); getcontext(&c.c); c.c.uc_stack.ss_sp = c.stack.data(); c.c.uc_stack.ss_size = c.stack.size(); c.c.uc_link = &main_; makecontext(&c.c, (void (*)())entry, 0); }
        for (;;) {
            bool any = false;
            for (int i = 0; i < n; ++i) if (!co[i]->done && !co[i]->waiting) { cur = i; any = true; swapcontext(&main_, &co[i]->c); cur = -1; if (co[i]->err) { auto e = co[i]->err; current() = prev; std::rethrow_exception(e); } }
            int w = 0, d = 0; for (int i = 0; i < n; ++i) { w += co[i]->waiting; d += co[i]->done; }
            if (d == n) break;
            if (w == n) { ++rounds; try { for (int i = 0; i < n; ++i) if (pending[i]) pending[i](); } catch (...) { current() = prev; throw; } for (int i = 0; i < n; ++i) { pending[i] = nullptr; co[i]->waiting = false; } continue; }
            if (!any) { mismatch = true; break; }
        }
        current() = prev;
        if (mismatch) throw std::runtime_error("mock: processes do not agree on the collective calls");
    }
};

class Mesh: public Storage {
public:
    std::array<std::vector<ElemRec>, 4> el; std::vector<std::vector<double>> coords;
    std::vector<std::unique_ptr<TagMemory>> tags, dead; int rank = 0, nproc = 1; World* world = nullptr;
    std::array<bool, 4> have_gid{{false, false, false, false}}; Tag gid_tag, coord_tag;
    std::array<std::vector<int>, 4> key; ///< identity of every element over all processes
    std::array<int, 4> total{{-1, -1, -1, -1}};
    std::function<std::vector<int>(int)> gid_source; ///< numbers of the elements of a dimension given by the owner order
    unsigned long long exchanges = 0;
    Mesh() { m_link = this; handle = ComposeHandleNum(5, 0); }
    Mesh(const Mesh&) = delete; Mesh& operator=(const Mesh&) = delete;
    bool alive(HandleType h) const { if (!h) return false; int n = GetHandleElementNum(h), l = GetHandleID(h); if (n == 5) return true; return n < 4 && l < int(el[n].size()) && el[n][l].alive; }
    ElemRec& rec(HandleType h) { int n = GetHandleElementNum(h), l = GetHandleID(h); if (!h || n > 3 || l >= int(el[n].size()) || !el[n][l].alive) throw std::out_of_range("mock: access to an invalid element"); return el[n][l]; }
    const std::vector<HandleType>& LowConn(HandleType h) { return rec(h).low; }
    const std::vector<HandleType>& HighConn(HandleType h) { return rec(h).high; }
    int GetProcessorRank() const { return rank; }
    int GetProcessorsNumber() const { return nproc; }
    int LastLocalID(ElementType t) const { return int(el[ElementNum(t)].size()); }
    int LastLocalIDNum(int n) const { return int(el[n].size()); }
    int FirstLocalID(ElementType t) const { int n = ElementNum(t), i = 0; while (i < int(el[n].size()) && !el[n][i].alive) ++i; return i; }
    int NextLocalID(ElementType t, int lid) const { int n = ElementNum(t); ++lid; while (lid < int(el[n].size()) && !el[n][lid].alive) ++lid; return lid; }
    int CellLastLocalID() const { return LastLocalID(CELL); } int FaceLastLocalID() const { return LastLocalID(FACE); } int EdgeLastLocalID() const { return LastLocalID(EDGE); } int NodeLastLocalID() const { return LastLocalID(NODE); }
    Element ElementByLocalIDNum(int n, int lid) { if (lid < 0 || lid >= int(el[n].size())) throw std::out_of_range("mock: element number beyond the mesh"); return Element(this, el[n][lid].alive ? ComposeHandleNum(n, lid) : 0); }
    Element ElementByLocalID(ElementType t, int lid) { return ElementByLocalIDNum(ElementNum(t), lid); }
    Cell CellByLocalID(int lid) { return Cell(ElementByLocalIDNum(3, lid)); } Face FaceByLocalID(int lid) { return Face(ElementByLocalIDNum(2, lid)); } Edge EdgeByLocalID(int lid) { return Edge(ElementByLocalIDNum(1, lid)); } Node NodeByLocalID(int lid) { return Node(ElementByLocalIDNum(0, lid)); }
    int NumberOf(ElementType t) const { int s = 0; for (int n = 0; n < 4; ++n) if (t & (1 << n)) for (auto& e : el[n]) s += e.alive; return s; }
    int NumberOfCells() const { return NumberOf(CELL); } int NumberOfNodes() const { return NumberOf(NODE); } int NumberOfEdges() const { return NumberOf(EDGE); } int NumberOfFaces() const { return NumberOf(FACE); }
    int TotalNumberOf(ElementType t) { sync(); int s = 0; for (int n = 0; n < 4; ++n) if (t & (1 << n)) s += total[n] >= 0 ? total[n] : NumberOf(ElementType(1 << n)); return s; }
    void sync(std::function<void()> f = nullptr) { if (world) world->collective(f); else if (f) f(); }
    // tags
    bool HaveTag(const std::string& n) const { for (auto& t : tags) if (t->name == n) return true; return false; }
    Tag GetTag(const std::string& n) const { for (auto& t : tags) if (t->name == n) { Tag r; r.mem = t.get(); return r; } throw std::runtime_error("mock: no such tag " + n); }
    Tag CreateTag(const std::string& n, DataType ty, ElementType mask, ElementType sparse, enumerator size = ENUMUNDEF) { if (HaveTag(n)) return GetTag(n); tags.emplace_back(new TagMemory); TagMemory* m = tags.back().get(); m->name = n; m->type = ty; m->mask = mask; m->sparse = sparse; m->size = size; m->mesh = this; Tag r; r.mem = m; return r; }
    Tag DeleteTag(Tag t, ElementType = NODE | EDGE | FACE | CELL | ESET | MESH) { for (size_t i = 0; i < tags.size(); ++i) if (tags[i].get() == t.mem) { dead.push_back(std::move(tags[i])); tags.erase(tags.begin() + i); return Tag(); } throw std::runtime_error("mock: tag deleted twice"); }
    bool live(const Tag& t) const { for (auto& x : tags) if (x.get() == t.mem) return true; return false; }
    template <class T> std::vector<T>& tagdata(std::array<std::vector<std::vector<T>>, 6>& d, HandleType h, const Tag& t) {
        if (!t.mem || t.mem->mesh != this || !live(t)) throw std::runtime_error("mock: access through an invalid tag");
        if (!alive(h)) throw std::out_of_range("mock: data of an invalid element");
        int n = GetHandleElementNum(h), l = GetHandleID(h);
        if (!(t.mem->mask & (1 << n))) throw std::runtime_error("mock: tag is not defined on this type of element");
        if (int(d[n].size()) <= l) d[n].resize(l + 1);
        auto& v = d[n][l]; if (t.mem->size != ENUMUNDEF && v.size() != t.mem->size) v.assign(t.mem->size, T());
        t.mem->present[n].insert(l);
        return v; }
    real_array RealArray(HandleType h, const Tag& t) { if (t.mem && t.mem->type != DATA_REAL) throw std::runtime_error("mock: tag is not real"); return real_array(&tagdata(t.mem->r, h, t), t.mem->size != ENUMUNDEF); }
    integer_array IntegerArray(HandleType h, const Tag& t) { if (t.mem && t.mem->type != DATA_INTEGER) throw std::runtime_error("mock: tag is not integer"); return integer_array(&tagdata(t.mem->i, h, t), t.mem->size != ENUMUNDEF); }
    real& Real(HandleType h, const Tag& t) { return RealArray(h, t)[0]; }
    integer& Integer(HandleType h, const Tag& t) { return IntegerArray(h, t)[0]; }
    bool HaveData(HandleType h, const Tag& t) { if (!t.mem || !live(t)) throw std::runtime_error("mock: HaveData of an invalid tag"); int n = GetHandleElementNum(h); if (!(t.mem->mask & (1 << n))) return false; if (t.mem->sparse & (1 << n)) return t.mem->present[n].count(GetHandleID(h)) > 0; return true; }
    // global numbers
    bool HaveGlobalID(ElementType t) const { for (int n = 0; n < 4; ++n) if ((t & (1 << n)) && !have_gid[n]) return false; return true; }
    Tag GlobalIDTag() { if (!gid_tag.mem) gid_tag = CreateTag("GLOBAL_ID", DATA_INTEGER, NODE | EDGE | FACE | CELL, NONE, 1); return gid_tag; }
    void AssignGlobalID(ElementType mask) { for (int n = 0; n < 4; ++n) if (mask & (1 << n)) { sync(); auto ids = gid_source ? gid_source(n) : std::vector<int>(); int c = 0; for (size_t l = 0; l < el[n].size(); ++l) if (el[n][l].alive) { el[n][l].gid = ids.empty() ? c : ids[l]; ++c; IntegerArray(ComposeHandleNum(n, int(l)), GlobalIDTag())[0] = el[n][l].gid; } have_gid[n] = true; } }
    int GlobalID(HandleType h) { int n = GetHandleElementNum(h); if (!have_gid[n]) throw std::runtime_error("mock: global numbers were not assigned"); return IntegerArray(h, GlobalIDTag())[0]; }
    // exchange: the values of the owner replace the values of the copies
    void ExchangeData(const Tag& t, ElementType mask, int = 0) { ExchangeData(std::vector<Tag>(1, t), mask, 0); }
    void ExchangeData(const std::vector<Tag>& ts, ElementType mask, int = 0) {
        for (auto& t : ts) if (!t.mem || !live(t)) throw std::runtime_error("mock: exchange of an invalid tag");
        ++exchanges;
        if (!world || world->nproc == 1) return;
        auto& mine = outbox; mine.clear();
        for (auto& t : ts) { std::map<std::pair<int, int>, std::pair<std::vector<double>, std::vector<int>>> d;
            for (int n = 0; n < 4; ++n) if ((mask & (1 << n)) && (t.mem->mask & (1 << n))) for (size_t l = 0; l < el[n].size(); ++l) if (el[n][l].alive && el[n][l].st == Element::Shared) {
                HandleType h = ComposeHandleNum(n, int(l)); if (!HaveData(h, t)) continue;
                auto& x = d[{n, key[n][l]}]; if (t.mem->type == DATA_REAL) x.first = tagdata(t.mem->r, h, t); else x.second = tagdata(t.mem->i, h, t); }
            mine.push_back(d); }
        std::vector<Tag> tc = ts; ElementType mk = mask; Mesh* self = this;
        world->collective([self, tc, mk]() {
            for (size_t q = 0; q < tc.size(); ++q) { auto t = tc[q];
                for (int n = 0; n < 4; ++n) if ((mk & (1 << n)) && (t.mem->mask & (1 << n))) for (size_t l = 0; l < self->el[n].size(); ++l) if (self->el[n][l].alive && self->el[n][l].st == Element::Ghost) {
                    bool found = false;
                    for (auto* o : self->world->mesh) if (o != self && q < o->outbox.size()) { auto it = o->outbox[q].find({n, self->key[n][l]}); if (it == o->outbox[q].end()) continue; found = true;
                        HandleType h = ComposeHandleNum(n, int(l)); if (t.mem->type == DATA_REAL) self->tagdata(t.mem->r, h, t) = it->second.first; else self->tagdata(t.mem->i, h, t) = it->second.second; }
                    (void)found; } } });
    }
    std::vector<std::map<std::pair<int, int>, std::pair<std::vector<double>, std::vector<int>>>> outbox;
    /// sum of the values of the processes with lower rank
    INMOST_DATA_ENUM_TYPE ExclusiveSum(INMOST_DATA_ENUM_TYPE x) { if (!world || world->nproc == 1) return 0; sum_in = x; INMOST_DATA_ENUM_TYPE r = 0; Mesh* self = this; world->collective([self, &r]() { for (auto* o : self->world->mesh) if (o->rank < self->rank) r += o->sum_in; }); return r; }
    INMOST_DATA_ENUM_TYPE sum_in = 0;
    // nodes of an element
    std::vector<HandleType> nodes_of(HandleType h) {
        int n = GetHandleElementNum(h);
        if (n == 0) return {h};
        if (n == 1) return rec(h).low;
        if (n == 3) return rec(h).high;
        auto& lc = rec(h).low; std::vector<HandleType> r; // loop of edges, starting at the node of the first edge which the second one does not have
        auto e0 = rec(lc[0]).low, e1 = rec(lc[1]).low; HandleType first = e0[0], last = e0[1];
        if (first == e1[0] || first == e1[1]) std::swap(first, last);
        r = {first, last}; for (size_t k = 1; k + 1 < lc.size(); ++k) { auto e = rec(lc[k]).low; HandleType nx = e[0] == r.back() ? e[1] : e[0]; r.push_back(nx); }
        return r; }
    // construction
    static void Initialize(int*, char***) {} static void Finalize() {}
    void SetCommunicator(INMOST_MPI_Comm) { World* w = World::current(); if (w && w->cur >= 0) { world = w; rank = w->cur; nproc = w->nproc; w->mesh.resize(w->nproc); w->mesh[rank] = this; } }
    INMOST_MPI_Comm GetCommunicator() const { return INMOST_MPI_Comm(); }
    Node CreateNode(const real* x) { el[0].push_back(ElemRec()); key[0].push_back(-1); coords.push_back({x[0], x[1], x[2]}); return Node(this, ComposeHandleNum(0, int(el[0].size()) - 1)); }
    std::map<std::vector<HandleType>, HandleType> by_nodes; /// edges and faces by their nodes
    HandleType part(int n, std::vector<HandleType> nodes, const std::vector<HandleType>& low) { std::sort(nodes.begin(), nodes.end()); auto it = by_nodes.find(nodes); if (it != by_nodes.end()) return it->second; ElemRec r; r.low = low; el[n].push_back(r); key[n].push_back(-1); return by_nodes[nodes] = ComposeHandleNum(n, int(el[n].size()) - 1); }
    std::pair<Cell, bool> CreateCell(const ElementArray<Node>& v, const INMOST_DATA_INTEGER_TYPE* fn, const INMOST_DATA_INTEGER_TYPE* num, INMOST_DATA_INTEGER_TYPE nf) {
        std::vector<HandleType> faces; std::set<HandleType> all; HandleType first[3] = {0, 0, 0};
        for (int f = 0; f < nf; fn += num[f++]) { if (num[f] != 3) throw std::runtime_error("mock: only triangles are modelled"); std::vector<HandleType> q; for (int i = 0; i < 3; ++i) { if (fn[i] < 0 || fn[i] >= int(v.size())) throw std::out_of_range("mock: node of a face"); q.push_back(v.at(fn[i])); rec(q.back()); all.insert(q.back()); }
            if (q[0] == q[1] || q[1] == q[2] || q[0] == q[2]) throw std::runtime_error("mock: face with equal nodes");
            std::vector<HandleType> e; for (int i = 0; i < 3; ++i) e.push_back(part(1, {q[i], q[(i + 1) % 3]}, {q[i], q[(i + 1) % 3]})); if (!f) for (int i = 0; i < 3; ++i) first[i] = q[i]; faces.push_back(part(2, q, e)); }
        if (nf != 4 || all.size() != 4 || std::set<HandleType>(faces.begin(), faces.end()).size() != 4) throw std::runtime_error("mock: the faces do not form a tetrahedron");
        ElemRec r; r.low = faces; r.high = {first[0], first[1], first[2]}; for (auto h : all) if (h != first[0] && h != first[1] && h != first[2]) r.high.push_back(h); el[3].push_back(r); key[3].push_back(-1); return {Cell(this, ComposeHandleNum(3, int(el[3].size()) - 1)), true}; }
    std::array<std::vector<std::vector<std::array<double, 3>>>, 4> places_; std::array<std::vector<int>, 4> gids_;
    void ResolveShared() { // elements of different processes with the same nodes are the same
        for (int n = 0; n < 4; ++n) { places_[n].clear(); for (size_t l = 0; l < el[n].size(); ++l) { std::vector<std::array<double, 3>> k; for (auto h : nodes_of(ComposeHandleNum(n, int(l)))) { auto& c = coords[GetHandleID(h)]; k.push_back({c[0], c[1], c[2]}); } std::sort(k.begin(), k.end()); places_[n].push_back(k); } }
        Mesh* self = this; sync([] {}); sync([self] { std::vector<Mesh*> ms; if (self->world) ms = self->world->mesh; else ms = {self}; for (int n = 0; n < 4; ++n) { std::map<std::vector<std::array<double, 3>>, std::vector<int>> who; for (auto* m : ms) for (auto& k : m->places_[n]) who[k].push_back(m->rank); std::map<std::vector<std::array<double, 3>>, int> id, gid; for (auto& w : who) { int q = int(id.size()); id[w.first] = q; } int g = 0; for (auto* m : ms) for (auto& k : m->places_[n]) if (who[k][0] == m->rank && !gid.count(k)) gid[k] = g++;
            self->total[n] = int(who.size()); self->gids_[n].clear(); for (size_t l = 0; l < self->el[n].size(); ++l) { auto& k = self->places_[n][l]; self->key[n][l] = id[k]; self->gids_[n].push_back(gid[k]); self->el[n][l].st = who[k][0] != self->rank ? Element::Ghost : who[k].size() > 1 ? Element::Shared : Element::Owned; } } });
        gid_source = [self](int n) { return self->gids_[n]; }; }
    // markers
    unsigned marks_used = 0; MarkerType CreateMarker() { for (unsigned b = 1; b; b <<= 1) if (!(marks_used & b)) { marks_used |= b; return b; } return InvalidMarker(); }
    void ReleaseMarker(MarkerType k, ElementType = NONE) { if (!k || !(marks_used & k)) throw std::runtime_error("mock: release of a marker that is not in use"); for (auto& v : el) for (auto& r : v) if (r.alive && (r.marks & k)) throw std::runtime_error("mock: released marker is still set"); marks_used &= ~k; }
    std::map<int, std::set<int>> sides_; /// cells at a face over all processes
    void MarkBoundaryFaces(MarkerType k) {
        if (!(marks_used & k)) throw std::runtime_error("mock: marker is not in use"); sides_.clear(); for (size_t c = 0; c < el[3].size(); ++c) if (el[3][c].alive) for (auto f : el[3][c].low) sides_[key[2][GetHandleID(f)]].insert(key[3][c]);
        Mesh* self = this; sync([] {}); sync([self, k] { std::map<int, std::set<int>> s; std::vector<Mesh*> ms; if (self->world) ms = self->world->mesh; else ms = {self}; for (auto* m : ms) for (auto& q : m->sides_) s[q.first].insert(q.second.begin(), q.second.end()); for (size_t l = 0; l < self->el[2].size(); ++l) if (self->el[2][l].alive && s[self->key[2][l]].size() == 1) self->el[2][l].marks |= k; }); }
    double Integrate(double x) { Integrate(&x, 1); return x; }
    std::vector<double> summed_; void Integrate(double* x, enumerator n) { if (!world || world->nproc == 1) return; summed_.assign(x, x + n); Mesh* self = this; sync([] {}); sync([self, x, n] { std::fill(x, x + n, 0.0); for (auto* m : self->world->mesh) { if (m->summed_.size() != n) throw std::runtime_error("mock: processes sum different things"); for (enumerator i = 0; i < n; ++i) x[i] += m->summed_[i]; } }); sync([] {}); }
    double volume_of(HandleType h) { if (GetHandleElementNum(h) != 3) throw std::runtime_error("mock: volume of an element that is not a cell"); auto q = nodes_of(h); double d[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) d[i][k] = coords[GetHandleID(q[i + 1])][k] - coords[GetHandleID(q[0])][k]; return std::fabs(d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0]) + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0])) / 6; }
    // iteration
    template <class E> class base_iterator {
        Mesh* m = nullptr; int n = 4, l = 0; ElementType mask = 0; mutable E cur;
        void settle() { for (; n < 4; ++n, l = 0) { if (!(mask & (1 << n))) continue; while (l < int(m->el[n].size()) && !m->el[n][l].alive) ++l; if (l < int(m->el[n].size())) return; } l = 0; }
    public:
        typedef std::bidirectional_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E* pointer; typedef E reference;
        base_iterator() {}
        base_iterator(Mesh* m, ElementType mask, bool end): m(m), n(end ? 4 : 0), l(0), mask(mask) { if (!end) settle(); }
        base_iterator(const base_iterator& o): m(o.m), n(o.n), l(o.l), mask(o.mask) {}
        base_iterator& operator=(const base_iterator& o) { m = o.m; n = o.n; l = o.l; mask = o.mask; return *this; }
        E operator*() const { return E(m, ComposeHandleNum(n, l)); }
        E* operator->() const { cur = E(m, ComposeHandleNum(n, l)); return &cur; }
        base_iterator& operator++() { ++l; settle(); return *this; }
        base_iterator& operator--() { for (--l;; --l) { while (l < 0) { do --n; while (n >= 0 && !(mask & (1 << n))); if (n < 0) return *this; l = int(m->el[n].size()) - 1; } if (m->el[n][l].alive) return *this; } }
        base_iterator operator++(int) { base_iterator r(*this); ++*this; return r; }
        bool operator==(const base_iterator& o) const { return n == o.n && l == o.l; }
        bool operator!=(const base_iterator& o) const { return !(*this == o); }
        E getAsElement() const { return E(m, ComposeHandleNum(n, l)); }
    };
    typedef base_iterator<Element> iteratorElement; typedef base_iterator<Node> iteratorNode; typedef base_iterator<Edge> iteratorEdge; typedef base_iterator<Face> iteratorFace; typedef base_iterator<Cell> iteratorCell;
    iteratorElement BeginElement(ElementType m) { return iteratorElement(this, m, false); }
    iteratorElement EndElement() { return iteratorElement(this, 0, true); }
    iteratorCell BeginCell() { return iteratorCell(this, CELL, false); } iteratorCell EndCell() { return iteratorCell(this, CELL, true); }
    iteratorFace BeginFace() { return iteratorFace(this, FACE, false); } iteratorFace EndFace() { return iteratorFace(this, FACE, true); }
    iteratorEdge BeginEdge() { return iteratorEdge(this, EDGE, false); } iteratorEdge EndEdge() { return iteratorEdge(this, EDGE, true); }
    iteratorNode BeginNode() { return iteratorNode(this, NODE, false); } iteratorNode EndNode() { return iteratorNode(this, NODE, true); }
};
inline bool Storage::GetMarker(unsigned k) const { return (m_link->rec(handle).marks & k) != 0; }
inline void Storage::SetMarker(unsigned k) { if (!(m_link->marks_used & k)) throw std::runtime_error("mock: marker is not in use"); m_link->rec(handle).marks |= k; }
inline void Storage::RemMarker(unsigned k) { if (!(m_link->marks_used & k)) throw std::runtime_error("mock: marker is not in use"); m_link->rec(handle).marks &= ~k; }
inline double Element::Volume() const { return m_link->volume_of(handle); }
inline double Cell::Volume() const { return m_link->volume_of(handle); }
inline bool Storage::isValid() const { return m_link && m_link->alive(handle); }
inline Storage::real_array Storage::RealArray(const Tag& t) const { if (!m_link) throw std::runtime_error("mock: element without a mesh"); return m_link->RealArray(handle, t); }
inline Storage::integer_array Storage::IntegerArray(const Tag& t) const { if (!m_link) throw std::runtime_error("mock: element without a mesh"); return m_link->IntegerArray(handle, t); }
inline bool Storage::HaveData(const Tag& t) const { return m_link->HaveData(handle, t); }
inline int Element::GlobalID() const { return m_link->GlobalID(handle); }
inline Element::Status Element::GetStatus() const { return m_link->rec(handle).st; }
inline bool Element::Hidden() const { return !m_link->alive(handle); }
inline ElementArray<Cell> Element::getCells() const { ElementArray<Cell> r(m_link); int n = GetHandleElementNum(handle); for (size_t l = 0; l < m_link->el[3].size(); ++l) if (m_link->el[3][l].alive) { HandleType c = ComposeHandleNum(3, int(l)); if (n == 3) { if (c == handle) r.push_back(c); continue; } auto own = m_link->nodes_of(handle), all = m_link->nodes_of(c); bool in = true; for (auto h : own) in &= std::find(all.begin(), all.end(), h) != all.end(); if (in) r.push_back(c); } return r; }
inline ElementArray<Node> Element::getNodes() const { ElementArray<Node> r(m_link); for (auto h : m_link->nodes_of(handle)) r.push_back(h); return r; }
inline Storage::real_array Node::Coords() const { m_link->rec(handle); int l = GetHandleID(handle); if (m_link->coords.size() <= size_t(l)) throw std::out_of_range("mock: no coordinates"); return Storage::real_array(&m_link->coords[l], true); }
inline Node Edge::getBeg() const { return Node(m_link, m_link->LowConn(handle)[0]); }
inline Node Edge::getEnd() const { return Node(m_link, m_link->LowConn(handle)[1]); }
inline bool operator==(const HandleType& a, const Element& b) { return a == b.GetHandle(); }

namespace Sparse {
class Row {
public:
    struct entry { INMOST_DATA_ENUM_TYPE first; INMOST_DATA_REAL_TYPE second; bool operator<(const entry& o) const { return first < o.first || (first == o.first && second < o.second); } };
    typedef std::vector<entry> Entries; typedef Entries::iterator iterator; typedef Entries::const_iterator const_iterator;
    Entries data;
    INMOST_DATA_REAL_TYPE& operator[](INMOST_DATA_ENUM_TYPE i) { for (auto& e : data) if (e.first == i) return e.second; data.push_back(entry{i, 0.0}); return data.back().second; }
    INMOST_DATA_REAL_TYPE operator[](INMOST_DATA_ENUM_TYPE i) const { for (auto& e : data) if (e.first == i) return e.second; throw std::out_of_range("mock: no such entry"); }
    INMOST_DATA_REAL_TYPE get_safe(INMOST_DATA_ENUM_TYPE i) const { for (auto& e : data) if (e.first == i) return e.second; return 0; }
    INMOST_DATA_ENUM_TYPE& GetIndex(INMOST_DATA_ENUM_TYPE k) { return data.at(k).first; }
    INMOST_DATA_REAL_TYPE& GetValue(INMOST_DATA_ENUM_TYPE k) { return data.at(k).second; }
    INMOST_DATA_ENUM_TYPE GetIndex(INMOST_DATA_ENUM_TYPE k) const { return data.at(k).first; }
    INMOST_DATA_REAL_TYPE GetValue(INMOST_DATA_ENUM_TYPE k) const { return data.at(k).second; }
    void Push(INMOST_DATA_ENUM_TYPE i, INMOST_DATA_REAL_TYPE v) { data.push_back(entry{i, v}); }
    void Resize(INMOST_DATA_ENUM_TYPE n) { data.resize(n, entry{0, 0}); }
    void Reserve(INMOST_DATA_ENUM_TYPE n) { data.reserve(n); }
    void Clear() { data.clear(); }
    bool Empty() const { return data.empty(); }
    INMOST_DATA_ENUM_TYPE Size() const { return INMOST_DATA_ENUM_TYPE(data.size()); }
    void Swap(Row& o) { data.swap(o.data); }
    iterator Begin() { return data.begin(); } iterator End() { return data.end(); } const_iterator Begin() const { return data.begin(); } const_iterator End() const { return data.end(); }
};
template <class T> class Interval {
protected:
    std::string nm; INMOST_MPI_Comm cm = INMOST_MPI_Comm();
    INMOST_DATA_ENUM_TYPE b = 0, e = 0; std::map<INMOST_DATA_ENUM_TYPE, T> d;
    T& get(INMOST_DATA_ENUM_TYPE i) { if (i < b || i >= e) throw std::out_of_range("mock: index " + std::to_string(i) + " outside of [" + std::to_string(b) + ", " + std::to_string(e) + ")"); return d[i]; }
public:
    void SetInterval(INMOST_DATA_ENUM_TYPE s, INMOST_DATA_ENUM_TYPE t) { for (auto it = d.begin(); it != d.end();) { if (it->first < s || it->first >= t) it = d.erase(it); else ++it; } b = s; e = t; for (auto i = s; i < t; ++i) d[i]; }
    void GetInterval(INMOST_DATA_ENUM_TYPE& s, INMOST_DATA_ENUM_TYPE& t) const { s = b; t = e; }
    INMOST_DATA_ENUM_TYPE GetFirstIndex() const { return b; } INMOST_DATA_ENUM_TYPE GetLastIndex() const { return e; } INMOST_DATA_ENUM_TYPE Size() const { return e - b; } bool Empty() const { return e == b; }
    void Clear() { b = e = 0; d.clear(); }
    std::string GetName() const { return nm; } INMOST_MPI_Comm GetCommunicator() const { return cm; }
    class iterator { typename std::map<INMOST_DATA_ENUM_TYPE, T>::iterator i; public: iterator(typename std::map<INMOST_DATA_ENUM_TYPE, T>::iterator i): i(i) {} T& operator*() const { return i->second; } T* operator->() const { return &i->second; } iterator& operator++() { ++i; return *this; } bool operator==(const iterator& o) const { return i == o.i; } bool operator!=(const iterator& o) const { return i != o.i; } };
    iterator Begin() { return iterator(d.begin()); } iterator End() { return iterator(d.end()); }
    T& operator[](INMOST_DATA_ENUM_TYPE i) { return get(i); }
    const T& operator[](INMOST_DATA_ENUM_TYPE i) const { return const_cast<Interval*>(this)->get(i); }
};
class Vector: public Interval<double> { public: Vector(std::string n = "", INMOST_DATA_ENUM_TYPE s = 0, INMOST_DATA_ENUM_TYPE t = 0, INMOST_MPI_Comm c = INMOST_MPI_Comm()) { nm = n; cm = c; if (t > s) SetInterval(s, t); else b = e = s; } };
class Matrix: public Interval<Row> { public: Matrix(std::string n = "", INMOST_DATA_ENUM_TYPE s = 0, INMOST_DATA_ENUM_TYPE t = 0, INMOST_MPI_Comm c = INMOST_MPI_Comm()) { nm = n; cm = c; if (t > s) SetInterval(s, t); else b = e = s; }
    INMOST_DATA_ENUM_TYPE Nonzeros() const { INMOST_DATA_ENUM_TYPE n = 0; for (auto& r : d) n += r.second.Size(); return n; }
    void MatVec(double alpha, Vector& x, double beta, Vector& y) const { if (y.Empty()) y.SetInterval(b, e); for (auto& r : d) { double s = 0; for (auto& q : r.second.data) s += q.second * x[q.first]; y[r.first] = beta * y[r.first] + alpha * s; } } };
/// locks of the rows; hook(row, 1 lock / 0 unlock) belongs to the scheduler of a harness
class LockService {
    INMOST_DATA_ENUM_TYPE b = 0, e = 0; std::vector<char> held;
    void at(INMOST_DATA_ENUM_TYPE r) const { if (r < b || r >= e) throw std::out_of_range("mock: lock of row " + std::to_string(r) + " outside of [" + std::to_string(b) + ", " + std::to_string(e) + ")"); }
public:
    static void (*&hook())(LockService*, INMOST_DATA_ENUM_TYPE, int) { static void (*h)(LockService*, INMOST_DATA_ENUM_TYPE, int) = nullptr; return h; }
    void SetInterval(INMOST_DATA_ENUM_TYPE s, INMOST_DATA_ENUM_TYPE t) { b = s; e = t; held.assign(t - s, 0); }
    bool Empty() const { return b == e; }
    void Lock(INMOST_DATA_ENUM_TYPE r) { at(r); if (hook()) { hook()(this, r, 1); return; } if (held[r - b]) throw std::runtime_error("mock: row locked twice"); held[r - b] = 1; }
    void UnLock(INMOST_DATA_ENUM_TYPE r) { at(r); if (hook()) { hook()(this, r, 0); return; } if (!held[r - b]) throw std::runtime_error("mock: unlock of a free row"); held[r - b] = 0; }
};
} // namespace Sparse
/// what a harness makes of the linear solver, and the numbering of the columns of other processes
class Solver {
public:
    struct Call { int what; bool a, b; Sparse::Matrix* A; std::map<std::pair<INMOST_DATA_ENUM_TYPE, INMOST_DATA_ENUM_TYPE>, double> mat; };
    std::vector<Call> calls; std::map<std::string, double> par; bool flag = true; double resid = 0; int its = 5; std::function<void(Sparse::Vector&, Sparse::Vector&)> act; static long& alive() { static long n = 0; return n; }
    Solver() { ++alive(); } Solver(const Solver&) = delete;
    // a solver of its own: elimination with pivoting over the equations of all processes
    static constexpr const char* INNER_ILU2 = "inner_ilu2"; static constexpr const char* INNER_MPTILUC = "inner_mptiluc"; static void Initialize(int*, char***, const char* = nullptr) {} static void Finalize() {} bool own = false, solved = false; Sparse::Matrix* mine = nullptr;
    explicit Solver(std::string type, std::string = "", INMOST_MPI_Comm = INMOST_MPI_Comm()): own(true) { ++alive(); if (type.empty()) throw std::runtime_error("mock: no solver"); }
    bool IsSolved() const { return own ? solved : flag; } void Clear() { mine = nullptr; }
    struct System { std::map<INMOST_DATA_ENUM_TYPE, std::map<INMOST_DATA_ENUM_TYPE, double>> A; std::map<INMOST_DATA_ENUM_TYPE, double> b, x; bool ok = false; };
    static std::string& trouble() { static std::string s; return s; }
    static void eliminate(System& S) {
        size_t n = S.A.size(); S.ok = false; std::map<INMOST_DATA_ENUM_TYPE, size_t> at; for (auto& r : S.A) { size_t k = at.size(); at[r.first] = k; } std::vector<std::vector<double>> M(n, std::vector<double>(n + 1, 0.0)); for (auto& r : S.A) { for (auto& q : r.second) { if (!at.count(q.first)) { trouble() = "matrix has a column without a row"; return; } M[at[r.first]][at[q.first]] += q.second; } M[at[r.first]][n] = S.b[r.first]; }
        std::vector<size_t> prow(n); for (size_t c = 0; c < n; ++c) { size_t p = c; for (size_t r = c + 1; r < n; ++r) if (std::fabs(M[r][c]) > std::fabs(M[p][c])) p = r; if (!(std::fabs(M[p][c]) > 1e-13)) { trouble() = "matrix is singular"; return; } std::swap(M[p], M[c]); for (size_t r = c + 1; r < n; ++r) if (M[r][c] != 0) { double f = M[r][c] / M[c][c]; for (size_t k = c; k <= n; ++k) M[r][k] -= f * M[c][k]; } }
        std::vector<double> x(n); for (size_t c = n; c--;) { double v = M[c][n]; for (size_t k = c + 1; k < n; ++k) v -= M[c][k] * x[k]; x[c] = v / M[c][c]; } for (auto& a : at) S.x[a.first] = x[a.second]; S.ok = true; }
    bool solve_own(Sparse::Vector& rhs, Sparse::Vector& sol) {
        static System S; World* w = World::current(); Sparse::Matrix* A = mine; if (!A) throw std::runtime_error("mock: solver without a matrix"); auto add = [A, &rhs] { for (auto r = A->GetFirstIndex(); r < A->GetLastIndex(); ++r) { if (S.A.count(r)) throw std::runtime_error("mock: row of two processes"); auto& q = S.A[r]; for (auto& e : (*A)[r].data) q[e.first] += e.second; S.b[r] = rhs[r]; } };
        auto take = [this, A, &sol] { solved = S.ok; sol.SetInterval(A->GetFirstIndex(), A->GetLastIndex()); if (S.ok) for (auto r = A->GetFirstIndex(); r < A->GetLastIndex(); ++r) sol[r] = S.x[r]; };
        if (!w || w->cur < 0 || w->nproc == 1) { S = System(); add(); eliminate(S); take(); S = System(); return solved; }
        w->collective(add); int me = w->cur; w->collective([me] { if (!me) eliminate(S); }); w->collective(take); w->collective([me] { if (!me) S = System(); }); return solved; } ~Solver() { --alive(); }
    void SetMatrix(Sparse::Matrix& A, bool pattern = true, bool old = false) { if (own) { mine = &A; return; } Call c{0, pattern, old, &A, {}}; for (auto r = A.GetFirstIndex(); r < A.GetLastIndex(); ++r) for (auto& q : A[r].data) c.mat[{r, q.first}] += q.second; calls.push_back(c); }
    bool Solve(Sparse::Vector& rhs, Sparse::Vector& sol) { if (own) return solve_own(rhs, sol); calls.push_back(Call{1, false, false, nullptr, {}}); if (act) act(rhs, sol); return flag; }
    double Residual() const { return resid; } INMOST_DATA_ENUM_TYPE Iterations() const { return INMOST_DATA_ENUM_TYPE(its); } std::string GetReason() const { return "reason"; } double PreconditionerTime() const { return 0; } double IterationsTime() const { return 0; }
    void SetParameterReal(std::string n, double v) { par[n] = v; } std::string GetParameter(std::string) const { return "10"; }
    class OrderInfo {
        std::vector<INMOST_DATA_ENUM_TYPE> remote; INMOST_DATA_ENUM_TYPE b = 0, e = 0;
    public:
        void PrepareMatrix(Sparse::Matrix& m, INMOST_DATA_ENUM_TYPE overlap) { if (overlap) throw std::runtime_error("mock: overlap is not modelled"); m.GetInterval(b, e); std::set<INMOST_DATA_ENUM_TYPE> s; for (auto it = m.Begin(); it != m.End(); ++it) for (auto& q : it->data) if (q.first < b || q.first >= e) s.insert(q.first); remote.assign(s.begin(), s.end()); for (auto it = m.Begin(); it != m.End(); ++it) for (auto& q : it->data) if (q.first < b || q.first >= e) q.first = e + INMOST_DATA_ENUM_TYPE(std::lower_bound(remote.begin(), remote.end(), q.first) - remote.begin()); }
        void RestoreMatrix(Sparse::Matrix& m) { for (auto it = m.Begin(); it != m.End(); ++it) for (auto& q : it->data) if (q.first >= e) q.first = remote.at(q.first - e); }
        void PrepareVector(Sparse::Vector& v) { v.SetInterval(b, e + INMOST_DATA_ENUM_TYPE(remote.size())); }
        void RestoreVector(Sparse::Vector& v) { v.SetInterval(b, e); }
        void Update(Sparse::Vector& v) { // values of the columns of other processes
            typedef std::vector<std::pair<Sparse::Vector*, std::pair<INMOST_DATA_ENUM_TYPE, INMOST_DATA_ENUM_TYPE>>> All; static All all; World* w = World::current(); Sparse::Vector* pv = &v; OrderInfo* me = this;
            if (!w || w->nproc == 1) { if (!remote.empty()) throw std::runtime_error("mock: column of no process"); return; }
            w->collective([pv, me] { all.push_back({pv, {me->b, me->e}}); }); w->collective([pv, me] { for (size_t k = 0; k < me->remote.size(); ++k) { bool found = false; for (auto& a : all) if (me->remote[k] >= a.second.first && me->remote[k] < a.second.second) (*pv)[me->e + INMOST_DATA_ENUM_TYPE(k)] = (*a.first)[me->remote[k]], found = true; if (!found) throw std::runtime_error("mock: column of no process"); } }); w->collective([] { all.clear(); }); }
    };
};
} // namespace INMOST
#ifdef USE_MPI
namespace mock_mpi { struct Op { const void* in; int n, t, op; MPI_Comm c; }; inline std::map<int, Op>& slot() { static std::map<int, Op> s; return s; } inline long& calls() { static long n = 0; return n; } }
inline int MPI_Comm_rank(MPI_Comm, int* r) { INMOST::World* w = INMOST::World::current(); *r = w && w->cur >= 0 ? w->cur : 0; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int* r) { INMOST::World* w = INMOST::World::current(); *r = w ? w->nproc : 1; return MPI_SUCCESS; }
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    INMOST::World* w = INMOST::World::current(); size_t sz = t == MPI_DOUBLE || t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG ? 8 : t == MPI_INT || t == MPI_UNSIGNED ? 4 : 1; ++mock_mpi::calls();
    std::vector<char> mine(n * sz); memcpy(mine.data(), in == MPI_IN_PLACE ? out : in, n * sz);
    if (!w || w->nproc == 1 || w->cur < 0) { memcpy(out, mine.data(), n * sz); return MPI_SUCCESS; }
    int me = w->cur; mock_mpi::slot()[me] = mock_mpi::Op{mine.data(), n, t, op, c};
    w->collective([=] { auto& s = mock_mpi::slot(); for (int p = 0; p < w->nproc; ++p) { auto& o = s.at(p); if (o.n != n || o.t != t || o.op != op || o.c != c) throw std::runtime_error("mock: processes reduce different things");
        if (!p) { memcpy(out, o.in, n * sz); continue; } for (int i = 0; i < n; ++i) {
#define MOCK_RED(T) { typedef T V_; V_& a = static_cast<V_*>(out)[i]; V_ b = static_cast<const V_*>(o.in)[i]; a = op == MPI_SUM ? V_(a + b) : op == MPI_PROD ? V_(a * b) : op == MPI_LAND ? V_(a && b) : op == MPI_LOR ? V_(a || b) : op == MPI_MAX ? std::max(a, b) : std::min(a, b); }
            if (t == MPI_DOUBLE) MOCK_RED(double) else if (t == MPI_INT) MOCK_RED(int) else if (t == MPI_LONG) MOCK_RED(long) else if (t == MPI_LONG_LONG) MOCK_RED(long long) else if (t == MPI_UNSIGNED) MOCK_RED(unsigned) else if (t == MPI_UNSIGNED_LONG) MOCK_RED(unsigned long) else MOCK_RED(char) } } });
    w->collective([] {}); return MPI_SUCCESS;
}
#endif
using INMOST::HandleType;
using INMOST::isValidHandle;
#endif
