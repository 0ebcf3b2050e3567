// Run-time functions the library calls whose bodies are not in its headers: C++ models, executed symbolically by the engine
// (trusted base: they follow the C and C++ standards / the libstdc++ sources).
#include <map>
#include <cstddef>
#include <cstdint>
#include <string>
#include <stdexcept>
#include <unordered_map>

template class std::basic_string<char>;

extern "C"
{
    std::size_t strlen(const char* s)
    {
        std::size_t n = 0;
        while (s[n])
        {
            ++n;
        }
        return n;
    }

    int strcmp(const char* a, const char* b)
    {
        std::size_t i = 0;
        while (a[i] && a[i] == b[i])
        {
            ++i;
        }
        return int(static_cast<unsigned char>(a[i])) - int(static_cast<unsigned char>(b[i]));
    }

    int strncmp(const char* a, const char* b, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            int d = int(static_cast<unsigned char>(a[i])) - int(static_cast<unsigned char>(b[i]));
            if (d || !a[i])
            {
                return d;
            }
        }
        return 0;
    }

    char* strcpy(char* d, const char* s)
    {
        std::size_t i = 0;
        do
        {
            d[i] = s[i];
        } while (s[i++]);
        return d;
    }

    char* vf_rt_strchr(const char* s, int c) __asm__("strchr");
    char* vf_rt_strchr(const char* s, int c)
    {
        for (;; ++s)
        {
            if (*s == char(c))
            {
                return const_cast<char*>(s);
            }
            if (!*s)
            {
                return nullptr;
            }
        }
    }

    void* vf_rt_memchr(const void* p, int c, std::size_t n) __asm__("memchr");
    void* vf_rt_memchr(const void* p, int c, std::size_t n)
    {
        auto* s = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i)
        {
            if (s[i] == static_cast<unsigned char>(c))
            {
                return const_cast<unsigned char*>(s + i);
            }
        }
        return nullptr;
    }

    int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
    int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

    static int vf_errno = 0;
    int* vf_rt_errno() __asm__("__errno_location");
    int* vf_rt_errno() { return &vf_errno; }

    static unsigned long vf_parse(const char* s, char** end, bool& neg, bool& over)
    {
        const char* p = s;
        neg = false;
        over = false;
        while (*p == ' ' || (*p >= 9 && *p <= 13))
        {
            ++p;
        }
        if (*p == '-' || *p == '+')
        {
            neg = *p == '-';
            ++p;
        }
        unsigned long v = 0;
        const char* first = p;
        while (*p >= '0' && *p <= '9')
        {
            unsigned long d = static_cast<unsigned long>(*p - '0');
            if (v > (~0ul - d) / 10)
            {
                over = true;
            }
            v = v * 10 + d;
            ++p;
        }
        if (end)
        {
            *end = const_cast<char*>(p == first ? s : p);
        }
        return v;
    }

    long vf_rt_strtol(const char* s, char** end, int) __asm__("__isoc23_strtol");
    long vf_rt_strtol(const char* s, char** end, int)
    {
        bool neg, over;
        unsigned long v = vf_parse(s, end, neg, over);
        constexpr unsigned long lim = ~0ul >> 1;
        if (over || v > lim + (neg ? 1 : 0))
        {
            vf_errno = 34;
            return neg ? long(-long(lim) - 1) : long(lim);
        }
        return neg ? -long(v) : long(v);
    }

    unsigned long vf_rt_strtoul(const char* s, char** end, int) __asm__("__isoc23_strtoull");
    unsigned long vf_rt_strtoul(const char* s, char** end, int)
    {
        bool neg, over;
        unsigned long v = vf_parse(s, end, neg, over);
        if (over)
        {
            vf_errno = 34;
            return ~0ul;
        }
        return neg ? -v : v;
    }

    unsigned long vf_rt_strtoul2(const char* s, char** end, int b) __asm__("__isoc23_strtoul");
    unsigned long vf_rt_strtoul2(const char* s, char** end, int b) { return vf_rt_strtoul(s, end, b); }
}

namespace std
{
    // any deterministic hash is a correct model: the containers' observable behaviour may not depend on it
    size_t _Hash_bytes(const void* p, size_t n, size_t seed)
    {
        auto* s = static_cast<const unsigned char*>(p);
        size_t h = seed;
        for (size_t i = 0; i < n; ++i)
        {
            h += s[i];
        }
        return h;
    }

    namespace __detail
    {
        std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
        {
            // 1 or 16: few buckets, so that collision chains are exercised
            std::size_t r = n <= 1 ? 1 : (n <= 4 ? 4 : (n <= 16 ? 16 : n));
            _M_next_resize = r;
            return r;
        }

        std::pair<bool, std::size_t>
        _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const
        {
            if (n_elt + n_ins > _M_next_resize)
            {
                std::size_t m = n_elt + n_ins;
                if (m >= n_bkt)
                {
                    return {true, _M_next_bkt(m * 2)};
                }
                _M_next_resize = n_bkt;
            }
            return {false, 0};
        }
    }
}

// --- std::map, std::set: the insertion and the steps of the library's tree, without the rebalancing (the order of the
// nodes, all that the containers' observable behaviour depends on, is the same)
namespace std
{
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
    {
        x->_M_parent = p;
        x->_M_left = nullptr;
        x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (left)
        {
            p->_M_left = x;
            if (p == &header)
            {
                header._M_parent = x;
                header._M_right = x;
            }
            else if (p == header._M_left)
            {
                header._M_left = x;
            }
        }
        else
        {
            p->_M_right = x;
            if (p == header._M_right)
            {
                header._M_right = x;
            }
        }
    }

    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_right != nullptr)
        {
            x = x->_M_right;
            while (x->_M_left != nullptr) x = x->_M_left;
            return x;
        }
        auto* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        return x->_M_right != y ? y : x;
    }

    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left != nullptr)
        {
            auto* y = x->_M_left;
            while (y->_M_right != nullptr) y = y->_M_right;
            return y;
        }
        auto* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }

    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
