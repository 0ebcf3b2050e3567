// Native side of the harness interface: replays a countermodel on (or samples inputs for) the real code.
#include "vf.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
    struct Entry
    {
        const char* name;
        void (*f)();
    };

    Entry g_entries[512];
    int g_n = 0;

    struct skip
    {
    };

    long long g_live = 0;
    unsigned long long g_rng = 1;
    bool g_random = false;
    bool g_print = false;

    unsigned long long rnd()
    {
        g_rng ^= g_rng << 13;
        g_rng ^= g_rng >> 7;
        g_rng ^= g_rng << 17;
        return g_rng * 0x2545F4914F6CDD1Dull;
    }

    struct In
    {
        bool buf;
        unsigned long long v;
        unsigned long long n;
        unsigned char* data;
    };

    In g_in[4096];
    int g_nin = 0, g_pos = 0;
    FILE* g_rec = nullptr;

    struct Live
    {
        void* p;
        std::size_t n;
    };

    Live g_tab[1 << 16];
    int g_ntab = 0;

    void* vf_alloc(std::size_t n, std::size_t al)
    {
        void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
        if (!p)
        {
            throw std::bad_alloc();
        }
        unsigned char fill = static_cast<unsigned char>(g_rng * 37 + 0x5a + g_live);
        std::memset(p, fill ? fill : 0xa5, n);
        ++g_live;
        if (g_ntab < (1 << 16))
        {
            g_tab[g_ntab++] = {p, n};
        }
        return p;
    }

    void vf_dealloc(void* p, std::size_t n = ~std::size_t(0))
    {
        if (!p)
        {
            return;
        }
        --g_live;
        for (int i = g_ntab; i-- > 0;)
        {
            if (g_tab[i].p == p)
            {
                if (n != ~std::size_t(0) && g_tab[i].n != n)
                {
                    std::fprintf(stderr, "a block of %zu bytes was returned as one of %zu bytes\n", g_tab[i].n, n);
                    std::_Exit(99);
                }
                g_tab[i] = g_tab[--g_ntab];
                break;
            }
        }
        std::free(p);
    }
}

void* operator new(std::size_t n) { return vf_alloc(n, 1); }
void* operator new[](std::size_t n) { return vf_alloc(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return vf_alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return vf_alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { vf_dealloc(p); }
void operator delete[](void* p) noexcept { vf_dealloc(p); }
void operator delete(void* p, std::size_t n) noexcept { vf_dealloc(p, n); }
void operator delete[](void* p, std::size_t n) noexcept { vf_dealloc(p, n); }
void operator delete(void* p, std::align_val_t) noexcept { vf_dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vf_dealloc(p); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { vf_dealloc(p, n); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { vf_dealloc(p, n); }

namespace
{
    unsigned long long small(unsigned long long lo, unsigned long long hi)
    {
        unsigned long long span = hi - lo;
        unsigned long long r = rnd() >> 8;
        unsigned long long lim;
        switch (r % 8)
        {
            case 0: lim = 2; break;
            case 1: lim = 4; break;
            case 2: case 3: lim = 10; break;
            case 4: case 5: lim = 20; break;
            case 6: lim = 40; break;
            default: lim = 130;
        }
        if (span < lim)
        {
            lim = span + 1;
        }
        return lo + (rnd() >> 11) % lim;
    }

    In* next(const char*)
    {
        return g_pos < g_nin ? &g_in[g_pos++] : nullptr;
    }
}

extern "C"
{
    void vf_register(const char* n, void (*f)())
    {
        g_entries[g_n++] = {n, f};
    }

    std::uint64_t vf_nd(const char* name, std::uint64_t lo, std::uint64_t hi)
    {
        std::uint64_t r;
        if (In* i = next(name))
        {
            r = i->v;
            if (r < lo || r > hi)
            {
                throw skip{};
            }
        }
        else
        {
            r = g_random ? small(lo, hi) : lo;
        }
        if (g_rec)
        {
            std::fprintf(g_rec, "s %s %llu\n", name, static_cast<unsigned long long>(r));
        }
        return r;
    }

    std::uint64_t vf_below(const char* name, std::uint64_t lt)
    {
        if (!lt)
        {
            throw skip{};
        }
        return vf_nd(name, 0, lt - 1);
    }

    std::uint64_t vf_bits(const char* name, unsigned bits)
    {
        std::uint64_t r;
        if (In* i = next(name))
        {
            r = i->v;
        }
        else
        {
            r = g_random ? (rnd() % 3 == 0 ? rnd() % 4 : rnd()) : 0;
        }
        if (bits < 64)
        {
            r &= (std::uint64_t(1) << bits) - 1;
        }
        if (g_rec)
        {
            std::fprintf(g_rec, "s %s %llu\n", name, static_cast<unsigned long long>(r));
        }
        return r;
    }

    void* vf_bytes(const char* name, std::uint64_t n, std::uint64_t elem)
    {
        if (n > (1u << 28))
        {
            throw skip{};
        }
        auto* p = static_cast<unsigned char*>(operator new(n));
        In* i = next(name);
        for (std::uint64_t k = 0; k < n; ++k)
        {
            p[k] = i && i->buf ? (k < i->n ? i->data[k] : 0) : (g_random ? static_cast<unsigned char>(rnd() >> 20) : 0);
        }
        if (g_rec)
        {
            std::fprintf(g_rec, "b %s %llu %llu ", name, static_cast<unsigned long long>(n), static_cast<unsigned long long>(elem));
            for (std::uint64_t k = 0; k < n && k < 65536; ++k)
            {
                std::fprintf(g_rec, "%02x", p[k]);
            }
            std::fprintf(g_rec, n ? "\n" : "-\n");
        }
        return p;
    }

    void vf_assume(bool c)
    {
        if (!c)
        {
            throw skip{};
        }
    }

    void vf_assert(bool c, const char* name)
    {
        if (!c)
        {
            if (g_rec)
            {
                std::fflush(g_rec);
            }
            std::fprintf(stderr, "VF-FAIL ensures: %s\n", name);
            _exit(1);
        }
    }

    void vf_cover(const char* name)
    {
        if (g_print)
        {
            std::fprintf(stderr, "cover %s\n", name);
        }
    }
    void vf_skolem(std::uint64_t) {}
    std::uint64_t vf_live() { return static_cast<std::uint64_t>(g_live); }

    int vf_is_live(const void* p)
    {
        for (int i = 0; i < g_ntab; ++i)
        {
            if (static_cast<const char*>(p) >= static_cast<char*>(g_tab[i].p) && static_cast<const char*>(p) < static_cast<char*>(g_tab[i].p) + (g_tab[i].n ? g_tab[i].n : 1))
            {
                return 1;
            }
        }
        return 0;
    }

    int vf_symbolic() { return 0; }

    void vf_print(const char* name, std::uint64_t v)
    {
        std::fprintf(stderr, "print %s = %llu\n", name, static_cast<unsigned long long>(v));
    }

    std::uint64_t vf_popcount(const void* p, std::uint64_t n, std::uint64_t)
    {
        std::uint64_t r = 0;
        for (std::uint64_t i = 0; i < n; ++i)
        {
            r += static_cast<unsigned>(__builtin_popcount(static_cast<const unsigned char*>(p)[i]));
        }
        return r;
    }

    static const char* g_refusing = nullptr;
    void vf_refusing(const char* name) { g_refusing = name; }
    void vf_contract_fail(const char* expr)
    {
        if (g_refusing)
        {
            g_refusing = nullptr;
            throw skip{};
        }
        if (g_rec)
        {
            std::fflush(g_rec);
        }
        std::fprintf(stderr, "VF-FAIL contract of the library violated: %s\n", expr);
        _exit(1);
    }

    void vf_end_path()
    {
        throw skip{};
    }
}

static int run(void (*f)())
{
    try
    {
        f();
    }
    catch (const skip&)
    {
        return 77;
    }
    return 0;
}

static void on_terminate()
{
    std::fprintf(stderr, "VF-FAIL uncaught exception or std::terminate\n");
    _exit(1);
}

#include <exception>

int main(int argc, char** argv)
{
    std::set_terminate(on_terminate);
    if (argc < 2)
    {
        for (int i = 0; i < g_n; ++i)
        {
            std::printf("%s\n", g_entries[i].name);
        }
        return 0;
    }
    void (*f)() = nullptr;
    for (int i = 0; i < g_n; ++i)
    {
        if (!std::strcmp(argv[1], g_entries[i].name))
        {
            f = g_entries[i].f;
        }
    }
    if (!f)
    {
        std::fprintf(stderr, "no such harness\n");
        return 2;
    }
    g_print = std::getenv("VF_COVER") != nullptr;
    if (argc >= 5 && !std::strcmp(argv[2], "--random"))
    {
        unsigned long long seed = std::strtoull(argv[3], nullptr, 10);
        long n = std::atol(argv[4]);
        const char* rec = argc > 5 ? argv[5] : nullptr;
        int skipped = 0, ok = 0;
        for (long i = 0; i < n; ++i)
        {
            std::fflush(nullptr);
            pid_t c = fork();
            if (c == 0)
            {
                alarm(10);
                g_random = true;
                g_rng = (seed + 1) * 0x9E3779B97F4A7C15ull + static_cast<unsigned long long>(i) * 0xD1B54A32D192ED03ull + 1;
                rnd();
                rnd();
                if (rec)
                {
                    g_rec = std::fopen(rec, "w");
                    setvbuf(g_rec, nullptr, _IOLBF, 0);
                }
                int r = run(f);
                if (g_rec)
                {
                    std::fflush(g_rec);
                }
                _exit(r);
            }
            int st = 0;
            waitpid(c, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
            {
                ++skipped;
            }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            {
                ++ok;
            }
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            {
                ++skipped;
            }
            else
            {
                std::fprintf(stderr, "failing iteration %ld status %d\n", i, st);
                return 1;
            }
        }
        std::printf("ok %d skipped %d\n", ok, skipped);
        return 0;
    }
    if (argc >= 3)
    {
        FILE* in = std::fopen(argv[2], "r");
        if (!in)
        {
            return 2;
        }
        static char line[1 << 20];
        while (std::fgets(line, sizeof line, in))
        {
            char name[256];
            unsigned long long v, e;
            int used = 0;
            if (line[0] == 's' && std::sscanf(line, "s %255s %llu", name, &v) == 2)
            {
                g_in[g_nin++] = {false, v, 0, nullptr};
            }
            else if (line[0] == 'b' && std::sscanf(line, "b %255s %llu %llu %n", name, &v, &e, &used) == 3)
            {
                In b{true, v, 0, nullptr};
                const char* h = line + used;
                std::size_t L = std::strspn(h, "0123456789abcdefABCDEF") / 2;
                b.data = static_cast<unsigned char*>(std::malloc(L + 1));
                for (std::size_t k = 0; k < L; ++k)
                {
                    char t[3] = {h[2 * k], h[2 * k + 1], 0};
                    b.data[k] = static_cast<unsigned char>(std::strtoul(t, nullptr, 16));
                }
                b.n = L;
                g_in[g_nin++] = b;
            }
        }
        std::fclose(in);
    }
    alarm(20);
    return run(f);
}
