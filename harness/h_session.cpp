// Drives metaproxy_1::Session / session_map.
//   stdin: scripts, one operation per line, "trace"/"end" around each
//   stress T N: T threads create N sessions each
#include "hx.hpp"
#include <metaproxy/session.hpp>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <sched.h>
#include <thread>
#include <atomic>
namespace mp = metaproxy_1;

static std::atomic<bool> perturb(false);
static thread_local unsigned rs = 1;
static unsigned rnd() { rs = rs * 1103515245u + 12345u; return rs >> 16; }

// Widen the windows just outside every critical section.
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    static int (*real)(pthread_mutex_t *) =
        (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (perturb && (rnd() & 31) == 0)
        sched_yield();
    return r;
}

// If the id counter has its known symbol, move it to the given value.
static bool jump_counter(unsigned long long v)
{
    void *p = dlsym(RTLD_DEFAULT, "_ZN11metaproxy_17Session11m_global_idE");
    if (!p)
        return false;
    Dl_info info;
    const ElfW(Sym) *sym = 0;
    if (!dladdr1(p, &info, (void **) &sym, RTLD_DL_SYMENT) || !sym)
        return false;
    unsigned long long cur = 0;
    memcpy(&cur, p, std::min((size_t) sym->st_size, sizeof v));
    if (sym->st_size > sizeof v || cur > v)
        return false;
    if (sym->st_size < sizeof v && v >> (8 * sym->st_size))
        v &= (1ULL << (8 * sym->st_size)) - 1;
    memcpy(p, &v, sym->st_size);
    return true;
}

static void stress(int T, int N, unsigned seed)
{
    std::vector<std::vector<unsigned long>> ids(T);
    std::vector<std::thread> th;
    std::atomic<int> ready(0);
    int bad_closed = 0;
    std::atomic<int> closed_new(0), copydiff(0);
    perturb = true;
    for (int t = 0; t < T; t++)
        th.push_back(std::thread([&, t]() {
            rs = seed * 7919 + t;
            ids[t].reserve(N);
            ready++;
            while (ready < T) ;
            for (int i = 0; i < N; i++) {
                mp::Session s;
                ids[t].push_back(s.id());
                if (s.is_closed()) closed_new++;
                mp::Session c(s);
                if (c.id() != ids[t].back()) copydiff++;
                s.close();
            }
        }));
    for (auto &x : th) x.join();
    perturb = false;
    std::vector<unsigned long> all;
    for (auto &v : ids) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end());
    size_t distinct = std::unique(all.begin(), all.end()) - all.begin();
    hx::Trace tr;
    tr.begin("\"name\":\"stress\"");
    tr.op(hx::Rec().str("op", "bulk").num("made", (long long) T * N)
          .num("distinct", distinct).num("bornclosed", closed_new)
          .num("copydiff", copydiff));
    int k = std::min(N, 40);
    for (int i = 0; i < k; i++)
        for (int t = 0; t < T; t++)
            tr.op(hx::Rec().str("op", "new").num("slot", 1000 + t * k + i)
                  .num("id", ids[t][i]).boolean("closed", false));
    tr.end();
}

int main(int argc, char **argv)
{
    if (argc > 4 && !strcmp(argv[1], "stress")) {
        stress(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
        return 0;
    }
    if (argc > 1 && !strcmp(argv[1], "wide")) {
        // ids stay unique across the 16 and 32 bit boundaries
        unsigned long long at[] = { 0xfff0ULL, 0xfffff0ULL, 0x7ffffff0ULL, 0xfffffff0ULL };
        std::set<unsigned long> seen;
        long long made = 0;
        for (int k = 0; k < 70000; k++) { mp::Session s; seen.insert(s.id()); made++; }
        for (int k = 1; k < 4; k++)
            if (jump_counter(at[k]))
                for (int i = 0; i < 64; i++) { mp::Session s; seen.insert(s.id()); made++; }
        hx::Trace tr;
        tr.begin("\"name\":\"wide\"");
        tr.op(hx::Rec().str("op", "bulk").num("made", made)
              .num("distinct", seen.size()).num("bornclosed", 0).num("copydiff", 0));
        tr.end();
        return 0;
    }
    std::string line;
    std::map<int, std::unique_ptr<mp::Session>> s;
    std::unique_ptr<mp::session_map<int>> m;
    hx::Trace tr;
    unsigned long base = 0;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        int a = v.size() > 1 ? atoi(v[1].c_str()) : 0;
        int b = v.size() > 2 ? atoi(v[2].c_str()) : 0;
        hx::Rec r;
        r.str("op", v[0]);
        if (v[0] == "trace") { s.clear(); m.reset(new mp::session_map<int>); tr.begin(); continue; }
        if (v[0] == "end") { tr.end(); continue; }
        if (v[0] == "new") {
            s[a].reset(new mp::Session);
            r.num("slot", a).num("id", s[a]->id()).boolean("closed", s[a]->is_closed());
        } else if (v[0] == "copy") {
            mp::Session *n = new mp::Session(*s[b]);
            s[a].reset(n);
            r.num("slot", a).num("src", b).num("id", n->id()).boolean("closed", n->is_closed());
        } else if (v[0] == "assign") {
            *s[a] = *s[b];
            r.num("slot", a).num("src", b).num("id", s[a]->id()).boolean("closed", s[a]->is_closed());
        } else if (v[0] == "close") {
            s[a]->close();
            r.num("slot", a).num("id", s[a]->id()).boolean("closed", s[a]->is_closed());
        } else if (v[0] == "look") {
            r.num("slot", a).num("id", s[a]->id()).boolean("closed", s[a]->is_closed());
        } else if (v[0] == "cmp") {
            r.num("slot", a).num("src", b).boolean("eq", *s[a] == *s[b])
                .boolean("lt", *s[a] < *s[b]).boolean("gt", *s[b] < *s[a]);
        } else if (v[0] == "mcreate") {
            int val = a; m->create(val, *s[a]); r.num("slot", a);
        } else if (v[0] == "mrelease") {
            m->release(*s[a]); r.num("slot", a);
        } else if (v[0] == "mexist") {
            r.num("slot", a).boolean("res", m->exist(*s[a]));
        }
        tr.op(r);
    }
    return 0;
}
