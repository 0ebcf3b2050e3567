// Symbolic memory: per-object functional contents (concrete-offset cells over a log of symbolic updates).
#pragma once
#include "expr.hpp"

#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vf
{
    using i64 = int64_t;

    struct Cell
    {
        E v;
        u32 n;  // bytes
    };
    using CellMap = std::map<i64, Cell>;

    struct Node;
    using NodeP = std::shared_ptr<const Node>;

    struct Init
    {
        enum Kind : uint8_t { Undef, Zero, Sym } k = Undef;
        u32 sym = 0;
        u32 elem = 1;
    };

    struct Content
    {
        std::shared_ptr<CellMap> cells;
        NodeP list;
        Init init;
    };

    struct Node
    {
        enum Kind : uint8_t { Store, Copy, Set, Map, Cells } kind;
        E off = nullptr;    // Store/Copy/Set: destination offset; Map: offset of element 0
        E val = nullptr;    // Store/Set(byte)/Map(template)
        u32 n = 0;          // bytes per Store / Map element
        E len = nullptr;    // Copy/Set length
        Content src;        // Copy
        E soff = nullptr;   // Copy source offset
        std::shared_ptr<CellMap> cells;
        i64 stride = 0;     // Map
        E count = nullptr;  // Map
        E kvar = nullptr;   // Map
        NodeP next;
    };

    enum class ObjKind : uint8_t { Heap, Stack, Global, Func, Exn };

    struct Obj
    {
        Content c;
        E size = nullptr;
        ObjKind kind = ObjKind::Heap;
        bool freed = false;
        bool readonly = false;
        bool lazy = false;   // global not yet initialised
        const void* g = nullptr;
        std::string name;
    };
    using ObjP = std::shared_ptr<Obj>;

    struct ObjTable
    {
        static constexpr u32 PS = 64;
        using Page = std::array<ObjP, PS>;
        std::vector<std::shared_ptr<Page>> pages;

        const Obj* get(u32 id) const
        {
            u32 p = id / PS;
            if (p >= pages.size() || !pages[p])
            {
                return nullptr;
            }
            return (*pages[p])[id % PS].get();
        }

        Page& page(u32 id)
        {
            u32 p = id / PS;
            if (p >= pages.size())
            {
                pages.resize(p + 1);
            }
            if (!pages[p])
            {
                pages[p] = std::make_shared<Page>();
            }
            else if (pages[p].use_count() > 1)
            {
                pages[p] = std::make_shared<Page>(*pages[p]);
            }
            return *pages[p];
        }

        Obj* mut(u32 id)
        {
            if (!get(id))
            {
                return nullptr;
            }
            Page& pg = page(id);
            ObjP& o = pg[id % PS];
            if (o.use_count() > 1)
            {
                o = std::make_shared<Obj>(*o);
            }
            return o.get();
        }

        void set(u32 id, ObjP o)
        {
            page(id)[id % PS] = std::move(o);
        }
    };

    E readContent(const Content& c, E off, u32 n);
    void writeContent(Content& c, E off, E val);                       // val width multiple of 8
    void copyContent(Content& dst, E doff, const Content& src, E soff, E len);
    void setContent(Content& dst, E off, E byte, E len);
    void pushNode(Content& c, std::shared_ptr<Node> n);
    std::string contentStr(const Content& c);
}
