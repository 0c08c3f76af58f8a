// Random operation histories over the compiler's own containers and text
// utilities, each step compared with an independent model.
//   core_model KIND FIRST COUNT     runs the histories FIRST .. FIRST+COUNT-1
// Prints "FAIL kind seed what" for each history that disagrees.
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>

extern "C" {
#include "core/array.h"
#include "core/format.h"
#include "core/hash.h"
#include "core/hmap.h"
#include "core/htable.h"
#include "core/mempool.h"
#include "core/sb.h"
#include "core/strpool.h"
#include "core/utils.h"
__attribute__((weak)) void printType_(FormatState *, const Type *, bool) {}
}

using std::string;
using std::vector;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

static char what[4096];
static uint64_t events;
#define BAD(...) do { snprintf(what, sizeof what, __VA_ARGS__); return false; } while (0)
#define CK(COND, ...) do { events++; if (!(COND)) BAD(__VA_ARGS__); } while (0)

// ------------------------------------------------------------------- hmap
struct Item { uint32_t key; uint32_t pad; uint64_t val; };
static int hashKind;
static HashCode itemHash(const void *p)
{
    uint32_t k = ((const Item *)p)->key;
    switch (hashKind) {
    case 0: return k;
    case 1: return 7;
    case 2: return k % 3;
    case 3: return 0xFFFFFFFFu - k % 5;
    default: return hashUint32(hashInit(), k);
    }
}
static bool itemEq(const void *a, const void *b) { return ((const Item *)a)->key == ((const Item *)b)->key; }

static bool hmapHistory(Rng &r)
{
    hashKind = r.below(5);
    uint64_t universe = r.chance(20) ? 4000 : r.chance(50) ? 6 : 60;
    Hmap m = r.chance(50) ? hmapCreate(sizeof(Item), itemHash, itemEq)
                          : hmapCreateWithCapacity(sizeof(Item), itemHash, itemEq, r.below(50));
    std::map<uint32_t, uint64_t> ref;
    int ops = 20 + r.below(universe > 1000 ? 3000 : 250);
    int bias = 30 + r.below(50);
    for (int i = 0; i < ops; i++) {
        Item it{(uint32_t)r.below(universe), 0, r.next()};
        int op = r.below(100);
        if (i % 97 == 96) bias = 20 + r.below(60);
        if (op < bias) {
            HmapStatus s = hmapPut(&m, &it);
            CK(s.s == !ref.count(it.key), "op %d: put %u reported %s", i, it.key, s.s ? "new" : "present");
            ref[it.key] = it.val;
        } else if (op < 85) {
            hmapRemove(&m, &it);
            ref.erase(it.key);
        } else if (op < 97) {
            std::map<uint32_t, uint64_t> seen;
            HmapIterator w = hmapIterator(&m);
            size_t n = 0;
            while (Item *p = (Item *)hmapNext(&w)) { seen[p->key] = p->val; n++; }
            CK(n == ref.size() && seen == ref, "op %d: iteration saw %zu items, %zu expected", i, n, ref.size());
        } else if (op == 99) {
            hmapClear(&m);
            ref.clear();
        } else {
            Item *p = (Item *)hmapGet(&m, &it);
            if (p) { p->val = it.val; ref[it.key] = it.val; }
        }
        Item q{(uint32_t)r.below(universe), 0, 0};
        Item *p = (Item *)hmapGet(&m, &q);
        auto f = ref.find(q.key);
        CK((p != nullptr) == (f != ref.end()), "op %d: get %u: %s", i, q.key, p ? "found" : "missing");
        CK(!p || (p->key == q.key && p->val == f->second), "op %d: get %u: wrong value", i, q.key);
        CK(m.nitems == ref.size(), "op %d: %llu items, %zu expected", i, (unsigned long long)m.nitems, ref.size());
    }
    for (auto &e : ref) {
        Item q{e.first, 0, 0};
        Item *p = (Item *)hmapGet(&m, &q);
        CK(p && p->val == e.second, "end: get %u", e.first);
    }
    hmapDestroy(&m);
    return true;
}

// ----------------------------------------------------------------- htable
static bool gather(void *ctx, const void *e)
{
    ((vector<Item> *)ctx)->push_back(*(const Item *)e);
    return true;
}

static bool htableHistory(Rng &r)
{
    hashKind = r.below(5);
    uint64_t universe = r.chance(20) ? 4000 : r.chance(50) ? 6 : 60;
    HashTable t = r.chance(50) ? newHashTable(sizeof(Item)) : newHashTableWithCapacity(sizeof(Item), r.below(300));
    std::map<uint32_t, uint64_t> ref;
    int ops = 20 + r.below(universe > 1000 ? 3000 : 250), bias = 30 + r.below(50);
    for (int i = 0; i < ops; i++) {
        Item it{(uint32_t)r.below(universe), 0, r.next()};
        int op = r.below(100);
        if (i % 97 == 96) bias = 20 + r.below(60);
        if (op < bias) {
            bool ok = insertInHashTable(&t, &it, itemHash(&it), sizeof(Item), itemEq);
            CK(ok == !ref.count(it.key), "op %d: insert %u returned %d", i, it.key, ok);
            ref.insert({it.key, it.val});
        } else if (op < 85) {
            void *p = findInHashTable(&t, &it, itemHash(&it), sizeof(Item), itemEq);
            CK((p != nullptr) == (bool)ref.count(it.key), "op %d: find %u: %p", i, it.key, p);
            if (p) { removeFromHashTable(&t, p, sizeof(Item)); ref.erase(it.key); }
        } else if (op < 97) {
            vector<Item> all, all2;
            enumerateHashTable(&t, &all, gather, sizeof(Item));
            HashtableIt w = newHashTableIt(&t, sizeof(Item));
            while (hashTableItHasNext(&w)) all2.push_back(*(Item *)hashTableItNext(&w));
            CK(hashTableItNext(&w) == nullptr, "op %d: next after the end", i);
            for (auto *v : {&all, &all2}) {
                std::map<uint32_t, uint64_t> seen;
                for (auto &e : *v) seen[e.key] = e.val;
                CK(v->size() == ref.size() && seen == ref, "op %d: enumeration saw %zu, %zu expected", i, v->size(), ref.size());
            }
        } else if (op == 99) {
            clearHashTable(&t);
            ref.clear();
        }
        Item q{(uint32_t)r.below(universe), 0, 0};
        Item *p = (Item *)findInHashTable(&t, &q, itemHash(&q), sizeof(Item), itemEq);
        auto f = ref.find(q.key);
        CK((p != nullptr) == (f != ref.end()), "op %d: find %u: %s", i, q.key, p ? "found" : "missing");
        CK(!p || (p->key == q.key && p->val == f->second), "op %d: find %u: wrong element", i, q.key);
        CK(t.size == ref.size(), "op %d: size %zu, %zu expected", i, t.size, ref.size());
    }
    for (auto &e : ref) {
        Item q{e.first, 0, 0};
        Item *p = (Item *)findInHashTable(&t, &q, itemHash(&q), sizeof(Item), itemEq);
        CK(p && p->val == e.second, "end: find %u", e.first);
    }
    freeHashTable(&t);
    return true;
}

// ------------------------------------------------------------------ array
static bool arrayHistory(Rng &r)
{
    vector<Item> ref;
    DynArray a = newDynArray(sizeof(Item));
    if (r.chance(30)) {
        freeDynArray(&a);
        vector<Item> init(1 + r.below(9));
        for (auto &e : init) e = Item{(uint32_t)r.next(), 0, r.next()};
        a = newDynArrayFromDataExplicit(init.data(), init.size(), sizeof(Item));
        ref = init;
    }
    int ops = 10 + r.below(200);
    for (int i = 0; i < ops; i++) {
        int op = r.below(100);
        if (op < 60) {
            Item it{(uint32_t)r.next(), 0, r.next()};
            pushOnDynArrayExplicit(&a, &it, sizeof it);
            ref.push_back(it);
        } else if (op < 90) {
            Item *p = (Item *)popDynArray(&a);
            CK((p == nullptr) == ref.empty(), "op %d: pop of %zu elements gave %p", i, ref.size(), (void *)p);
            if (p) { CK(p->val == ref.back().val, "op %d: pop: wrong element", i); ref.pop_back(); }
        } else {
            DynArray b = newDynArray(sizeof(Item));
            size_t before = r.below(3);
            for (size_t k = 0; k < before; k++) { Item z{1, 0, k}; pushOnDynArrayExplicit(&b, &z, sizeof z); }
            copyDynArray(&b, &a);
            CK(b.size == before + ref.size(), "op %d: copy has %zu elements", i, b.size);
            for (size_t k = 0; k < ref.size(); k++)
                CK(((Item *)b.elems)[before + k].val == ref[k].val, "op %d: copy: element %zu", i, k);
            freeDynArray(&b);
        }
        CK(a.size == ref.size(), "op %d: size %zu, %zu expected", i, a.size, ref.size());
        for (size_t k = 0; k < ref.size(); k++)
            CK(((Item *)a.elems)[k].val == ref[k].val && ((Item *)a.elems)[k].key == ref[k].key, "op %d: element %zu", i, k);
    }
    freeDynArray(&a);
    return true;
}

// ------------------------------------------------------- text: references
static string utf8(uint32_t c)
{
    string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 + c / 64); s += (char)(0x80 + c % 64); }
    else if (c < 0x10000) { s += (char)(0xE0 + c / 4096); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
    else { s += (char)(0xF0 + c / 262144); s += (char)(0x80 + c / 4096 % 64); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
    return s;
}
static uint32_t codePoint(Rng &r)
{
    static const vector<uint32_t> edge{1, '"', '\\', '\n', '\t', '{', '}', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x3b1, 0x20ac, 0x1f600};
    if (r.chance(40)) return r.pick(edge);
    if (r.chance(60)) return 32 + r.below(95);
    uint32_t c = 1 + r.below(0x10ffff);
    return c >= 0xd800 && c < 0xe000 ? 'q' : c;
}
static string text(Rng &r, size_t max)
{
    string s;
    for (size_t n = r.below(max); n; n--) s += utf8(codePoint(r));
    return s;
}
static string escaped(uint32_t c)
{
    switch (c) {
    case 0: return "\\0";
    case '\n': return "\\n";
    case '\t': return "\\t";
    case '\v': return "\\v";
    case '\r': return "\\r";
    case '\a': return "\\a";
    case '\b': return "\\b";
    case '"': return "\\\"";
    case '\\': return "\\\\";
    }
    return utf8(c);
}

// ---------------------------------------------------------- string builder
static bool sbHistory(Rng &r)
{
    StringBuilder *heap = r.chance(50) ? stringBuilderNew() : nullptr, local{};
    StringBuilder *sb = heap ? heap : &local;
    string ref;
    int ops = 1 + r.below(120);
    bool touched = false;
    for (int i = 0; i < ops; i++) {
        char buf[64];
        switch (r.below(7)) {
        case 0: { string s = text(r, r.chance(10) ? 400 : 12); stringBuilderAppendCstr0(sb, s.data(), s.size()); ref += s; break; }
        case 1: { string s = text(r, 20); stringBuilderAppendCstr1(sb, s.c_str()); ref += s; break; }
        case 2: { uint32_t c = codePoint(r); stringBuilderAppendChar(sb, c); ref += utf8(c); break; }
        case 3: { int64_t v = r.chance(20) ? INT64_MIN : (int64_t)r.next() >> r.below(64); stringBuilderAppendInt(sb, v); ref += std::to_string(v); break; }
        case 4: { uint64_t v = r.chance(20) ? UINT64_MAX : r.next() >> r.below(64); stringBuilderAppendUInt(sb, v); ref += std::to_string(v); break; }
        case 5: { double v = (double)(int64_t)r.next() / (1 + r.below(1000000)); stringBuilderAppendFloat(sb, v); snprintf(buf, sizeof buf, "%g", v); ref += buf; break; }
        case 6: { bool v = r.chance(50); stringBuilderAppendBool(sb, v); ref += v ? "true" : "false"; break; }
        }
        touched = true;
        CK(sb->size == ref.size(), "op %d: size %llu, %zu expected", i, (unsigned long long)sb->size, ref.size());
        CK(memcmp(sb->data, ref.c_str(), ref.size() + 1) == 0, "op %d: text differs: '%s' for '%s'", i, sb->data, ref.c_str());
        CK(sb->size <= sb->capacity, "op %d: size over capacity", i);
    }
    if (touched && r.chance(50)) {
        char *s = stringBuilderRelease(sb);
        CK(s && ref == s, "release");
        free(s);
        CK(sb->size == 0 && sb->data == nullptr, "release leaves data");
    }
    if (heap) stringBuilderDelete(heap);
    else stringBuilderDeinit(sb);
    return true;
}

// ------------------------------------------------------------ string pool
// strings with equal hashes, found by search; the pool must keep them apart
static vector<string> colliding{
    "count", "countfYRAwe", "value", "valuedB2WU4", "x", "xds4JAz", "main", "maind5IL24", "size", "sizecE6diM", "i", "iaaU1sY"};

static void findCollisions()
{
    std::unordered_map<uint32_t, string> seen;
    Rng r(99);
    for (int i = 0; i < 300000; i++) {
        string s = "v";
        for (int k = 0; k < 6; k++) s += "abcdefghijklmnopqrstuvwxyz_0123456789"[r.below(37)];
        uint32_t h = hashStr(hashInit(), s.c_str()) | 0x80000000u;
        auto p = seen.insert({h, s});
        if (!p.second && p.first->second != s) { colliding.push_back(s); colliding.push_back(p.first->second); }
    }
}

static bool strpoolHistory(Rng &r)
{
    MemPool mp = newMemPool();
    StrPool p = newStrPool(&mp);
    std::map<string, const char *> ref;
    int ops = 20 + r.below(r.chance(10) ? 4000 : 200);
    for (int i = 0; i < ops; i++) {
        string s;
        const char *got = nullptr;
        switch (r.below(8)) {
        case 0: case 1: case 2: {
            s = r.chance(40) ? r.pick(colliding) : r.chance(50) ? string(1 + r.below(3), "ab"[r.below(2)]) + std::to_string(r.below(300)) : text(r, 30);
            got = makeString(&p, s.c_str());
            break;
        }
        case 3: {
            string big = r.chance(50) ? text(r, 40) : r.pick(colliding) + text(r, 5);
            s = big.substr(0, r.below(big.size() + 1));
            char *exact = (char *)malloc(s.size() + 1);      // nothing behind the counted bytes may be read
            memcpy(exact, s.data(), s.size());
            char *tight = (char *)malloc(s.size() ? s.size() : 1);
            memcpy(tight, s.data(), s.size());
            got = makeStringSized(&p, tight, s.size());
            free(exact);
            free(tight);
            break;
        }
        case 4: {
            vector<string> parts;
            for (int k = 1 + r.below(4); k; k--) parts.push_back(r.chance(30) ? "" : text(r, 10));
            while (parts.size() < 4) parts.push_back("");
            for (auto &e : parts) s += e;
            got = makeStringConcat_(&p, parts[0].c_str(), parts[1].c_str(), parts[2].c_str(), parts[3].c_str(), nullptr);
            break;
        }
        case 5: {
            vector<string> parts(3);
            for (auto &e : parts) e = r.chance(20) ? "" : text(r, 8) + (r.chance(30) ? "/" : "");
            for (int k = 0; k < 3; k++) { s += parts[k]; if (k < 2 && !parts[k].empty() && parts[k].back() != '/') s += '/'; }
            got = joinPath_(&p, parts[0].c_str(), parts[1].c_str(), parts[2].c_str(), nullptr);
            break;
        }
        case 6: {
            string a = text(r, 300);
            int64_t n = (int64_t)r.next();
            s = a + ":" + std::to_string(n);
            got = makeStringf(&p, "%s:%lld", a.c_str(), (long long)n);
            break;
        }
        case 7: {
            string pre = r.chance(20) ? "" : r.pick(colliding);
            got = makeAnonymousVariable(&p, pre.empty() ? nullptr : pre.c_str());
            s = got;
            string lead = pre.empty() ? "cxy_anonymous_var" : pre;
            CK(s.size() > lead.size() && s.compare(0, lead.size(), lead) == 0 &&
               s.find_first_not_of("0123456789", lead.size()) == string::npos, "op %d: anonymous name '%s' for '%s'", i, got, lead.c_str());
            CK(!ref.count(s), "op %d: anonymous name '%s' is already in use", i, got);
            break;
        }
        }
        CK(got && s == got, "op %d: the pool returned '%s' for '%s'", i, got ? got : "(null)", s.c_str());
        auto e = ref.insert({s, got});
        CK(e.first->second == got, "op %d: two copies of '%s'", i, s.c_str());
    }
    for (auto &e : ref) CK(e.first == e.second, "end: '%s' became '%s'", e.first.c_str(), e.second);
    freeStrPool(&p);
    freeMemPool(&mp);
    return true;
}

// ------------------------------------------------------------ memory pool
static bool mempoolHistory(Rng &r)
{
    MemPool mp = newMemPool();
    struct Block { unsigned char *p; size_t n; unsigned char tag; };
    vector<Block> live;
    vector<std::pair<unsigned char *, size_t>> freed;
    size_t tracked = 0, total = 0;
    int ops = 10 + r.below(300);
    for (int i = 0; i < ops; i++) {
        int op = r.below(100);
        if (op < 80) {
            size_t n = r.chance(5) ? 1000 + r.below(9000) : 1 + r.below(200);
            unsigned char *p;
            if (op < 60) { p = (unsigned char *)allocFromMemPool(&mp, n); total += n; }
            else if (op < 70) { p = (unsigned char *)allocTrackedMem(&mp, n); tracked += n; total += n; }
            else { n = 64; size_t had = mp.caches[memType].count; p = (unsigned char *)allocFromCacheOrPool(&mp, memType, n);
                   if (had) { CK(std::any_of(freed.begin(), freed.end(), [&](auto &f) { return f.first == p; }), "op %d: cached block not reused", i);
                              freed.erase(std::find_if(freed.begin(), freed.end(), [&](auto &f) { return f.first == p; })); }
                   else { total += n; CK(freed.empty(), "op %d: the cache lost %zu blocks", i, freed.size()); }
                   memset(p, 0, n);
                   n |= (size_t)1 << 40; }
            bool cached = n >> 40;
            n &= 0xffffffff;
            CK(p && (uintptr_t)p % (op < 60 ? alignof(max_align_t) : alignof(void *)) == 0, "op %d: %p is not aligned", i, (void *)p);
            for (auto &b : live) CK(p + n <= b.p || b.p + b.n <= p, "op %d: block of %zu overlaps a live block", i, n);
            unsigned char tag = r.next();
            memset(p, tag, n);
            live.push_back({p, n, tag});
            if (cached) live.back().n = n;
        } else if (op < 92) {
            for (size_t k = 0; k < live.size(); k++)
                if (live[k].n == 64 && r.chance(30)) {
                    // only blocks that came from the pool itself are given back
                    bool isTracked = false;
                    for (TrackedMemoryItem *t = mp.trackedAllocations.first; t; t = t->next) isTracked |= (unsigned char *)(t + 1) == live[k].p;
                    if (isTracked) continue;
                    freeMemToPoolCache(&mp, memType, live[k].p, 64);
                    freed.push_back({live[k].p, 64});
                    live.erase(live.begin() + k);
                    break;
                }
        } else if (op < 94 && mp.trackedAllocations.first == nullptr && freed.empty()) {
            resetMemPool(&mp);
            live.clear();
            total = 0;
        }
        for (auto &b : live)
            for (size_t k = 0; k < b.n; k++) if (b.p[k] != b.tag) BAD("op %d: byte %zu of a live block of %zu changed", i, k, b.n);
        MemPoolStats st;
        getMemPoolStats(&mp, &st);
        CK(st.totalUsed >= total && st.totalAllocated + tracked >= st.totalUsed, "op %d: used %zu of %zu, at least %zu expected", i, st.totalUsed, st.totalAllocated, total);
    }
    freeMemPool(&mp);
    return true;
}

// ----------------------------------------------------------------- format
static bool formatHistory(Rng &r)
{
    bool plain = r.chance(70);
    const char *tab = r.chance(50) ? "  " : "\t";
    FormatState st = newFormatState(tab, plain);
    string ref;
    int indent = 0;
    int calls = 1 + r.below(60);
    auto num = [&]() -> uint64_t { return r.chance(15) ? UINT64_MAX : r.chance(15) ? 0 : r.chance(20) ? 1ull << r.below(64) : r.next() >> r.below(64); };
    for (int i = 0; i < calls; i++) {
        string f, want;
        vector<FormatArg> args;
        vector<string> keep;
        keep.reserve(64);
        int parts = r.below(10);
        for (int k = 0; k < parts; k++) {
            char buf[128];
            FormatArg a{};
            switch (r.below(20)) {
            case 0: { string s = text(r, r.chance(5) ? 900 : 12); for (char &c : s) if (c == '{' || c == '\n') c = '.'; f += s; want += s; break; }
            case 1: f += "{{"; want += "{"; break;
            case 2: f += "}"; want += "}"; break;
            case 3: f += "\n"; want += "\n"; for (int z = 0; z < indent; z++) want += tab; break;
            case 4: f += "{>}"; indent++; break;
            case 5: if (indent) { f += "{<}"; indent--; } break;
            case 6: { a.u8 = num(); f += "{u8}"; want += std::to_string(a.u8); args.push_back(a); break; }
            case 7: { a.u16 = num(); f += "{u16}"; want += std::to_string(a.u16); args.push_back(a); break; }
            case 8: { a.u32 = num(); f += "{u32}"; want += std::to_string(a.u32); args.push_back(a); break; }
            case 9: { a.u64 = num(); f += r.chance(50) ? "{u64}" : "{u}"; want += std::to_string(a.u64); args.push_back(a); break; }
            case 10: { a.i8 = num(); f += "{i8}"; want += std::to_string(a.i8); args.push_back(a); break; }
            case 11: { a.i16 = num(); f += "{i16}"; want += std::to_string(a.i16); args.push_back(a); break; }
            case 12: { a.i32 = num(); f += "{i32}"; want += std::to_string(a.i32); args.push_back(a); break; }
            case 13: { a.i64 = num(); f += r.chance(50) ? "{i64}" : "{i}"; want += std::to_string(a.i64); args.push_back(a); break; }
            case 14: { bool d = r.chance(50); double v = (double)(int64_t)num() / (1 + r.below(1000)); if (d) a.f64 = v; else a.f32 = v;
                       f += d ? "{f64}" : "{f32}"; snprintf(buf, sizeof buf, "%e", d ? a.f64 : (double)a.f32); want += buf; args.push_back(a); break; }
            case 15: { uint32_t c = codePoint(r); a.c = c; bool e = r.chance(50); bool many = r.chance(40); f += e ? (many ? "{cEl}" : "{cE}") : many ? "{cl}" : "{c}";
                       args.push_back(a); size_t n = 1; if (many) { FormatArg l{}; l.len = n = r.below(r.chance(5) ? 3000 : 5); args.push_back(l); }
                       for (; n; n--) want += e ? escaped(c) : utf8(c); break; }
            case 16: { keep.push_back(text(r, r.chance(3) ? 30000 : r.chance(10) ? 600 : 20)); a.s = r.chance(5) ? nullptr : keep.back().c_str(); f += "{s}"; want += a.s ? keep.back() : ""; args.push_back(a); break; }
            case 17: { keep.push_back(text(r, r.chance(3) ? 9000 : 20)); size_t n = r.below(keep.back().size() + 1); a.s = keep.back().c_str(); f += "{sl}"; want += keep.back().substr(0, n); args.push_back(a);
                       FormatArg l{}; l.len = n; args.push_back(l); break; }
            case 18: { string e; keep.push_back(""); string s; for (size_t n = r.below(12); n; n--) { uint32_t c = codePoint(r); if (c == '\\') c = '!'; s += utf8(c); e += escaped(c); }
                       keep.back() = s; a.s = keep.back().c_str(); f += "{sE}"; want += e; args.push_back(a); break; }
            case 19: { a.b = r.chance(50); f += "{b}"; want += a.b ? "true" : "false"; args.push_back(a); break; }
            }
        }
        args.push_back(FormatArg{});
        format(&st, f.c_str(), args.data());
        ref += want;
        if (r.chance(20)) {
            FormatStyle sty{(Style)r.below(5), (Color)r.below(8)};
            string s = text(r, 6);
            printWithStyle(&st, s.c_str(), sty);
            if (plain) ref += s;
            else {
                // the styled text stands between an escape sequence that ends in m and a reset
                char *now = formatStateToString(&st);
                size_t size = 0;
                for (FormatBuf *b = st.firstBuf; b; b = b->next) size += b->size;
                string all(now, size);
                free(now);
                CK(all.compare(0, ref.size(), ref) == 0, "call %d: earlier text changed", i);
                string tail = all.substr(ref.size());
                string stripped;
                for (size_t z = 0; z < tail.size();) {
                    if (tail[z] == '\33') { size_t m = tail.find('m', z); CK(m != string::npos, "call %d: open escape", i);
                        for (size_t y = z + 2; y < m; y++) CK(strchr("0123456789;", tail[y]), "call %d: escape", i); z = m + 1; }
                    else stripped += tail[z++];
                }
                CK(stripped == s, "call %d: styled text '%s' for '%s'", i, stripped.c_str(), s.c_str());
                CK(tail.size() >= 4 && tail.compare(tail.size() - 4, 4, "\33[0m") == 0, "call %d: style not reset", i);
                ref = all;
            }
        }
        if (r.chance(15)) { string s = text(r, 30); s += string("\0z", r.below(3)); append(&st, s.data(), s.size()); ref += s; }
    }
    char *s = formatStateToString(&st);
    char *mem = nullptr;
    size_t n = 0;
    FILE *fp = open_memstream(&mem, &n);
    writeFormatState(&st, fp);
    fclose(fp);
    CK(string(mem, n) == ref, "written text differs (%zu bytes, %zu expected)", n, ref.size());
    CK(memcmp(s, ref.c_str(), ref.size() + 1) == 0, "text differs");
    free(s);
    free(mem);
    freeFormatState(&st);
    return true;
}

// -------------------------------------------------------------- utilities
static int cmpInt(const void *a, const void *b) { int x = *(int *)a, y = *(int *)b; return (x > y) - (x < y); }

static bool utilsHistory(Rng &r, const string &dir)
{
    // code points survive being printed and read back
    for (int i = 0; i < 40; i++) {
        uint32_t c = codePoint(r), got = 0;
        string s = utf8(c);
        if (c == '\\') continue;
        char *tight = (char *)malloc(s.size() + 1);
        memcpy(tight, s.c_str(), s.size() + 1);
        size_t n = readChar(tight, s.size(), &got);
        CK(n == s.size() && got == c, "readChar of U+%04X gave %zu bytes, U+%04X", c, n, got);
        string e = escaped(c);
        got = 0;
        n = convertEscapeSeq(e.c_str(), e.size(), &got);
        CK(n == e.size() && got == c, "'%s' read as %zu bytes, U+%04X", e.c_str(), n, got);
        Stack_str_8 w = wcharToStr(c);
        CK(string(w.str, (size_t)w.str[5]) == s, "wcharToStr of U+%04X", c);
        FormatState st = newFormatState("", true);
        printUtf8(&st, c, false);
        char *p = formatStateToString(&st);
        CK(s == p, "printUtf8 of U+%04X", c);
        free(p);
        freeFormatState(&st);
        free(tight);
    }
    // numeric escapes in character literals and string literals
    for (int i = 0; i < 40; i++) {
        string src, want;
        for (int k = r.below(12); k; k--) {
            static const char *simple[][2] = {{"\\n", "\n"}, {"\\t", "\t"}, {"\\v", "\v"}, {"\\r", "\r"}, {"\\a", "\a"}, {"\\b", "\b"}, {"\\\"", "\""}, {"\\'", "'"}, {"\\\\", "\\"}, {"\\$", "$"}};
            switch (r.below(5)) {
            case 0: { int z = r.below(10); src += simple[z][0]; want += simple[z][1]; break; }
            case 1: { int v = r.below(256); char b[8]; snprintf(b, 8, r.chance(50) ? "\\x%02x" : "\\x%02X", v); src += b; want += (char)v; break; }
            case 2: { int v = r.below(256); char b[8]; snprintf(b, 8, "\\%03o", v); src += b; want += (char)v; break; }
            default: { uint32_t c = codePoint(r); if (c == '\\' || c == '"') c = '~'; src += utf8(c); want += utf8(c); break; }
            }
        }
        vector<char> dst(src.size() + 1);
        char *tight = (char *)malloc(src.size() + 1);
        memcpy(tight, src.c_str(), src.size() + 1);
        size_t n = escapeString(tight, src.size(), dst.data(), src.size());
        CK(n == want.size() && memcmp(dst.data(), want.data(), n) == 0 && dst[n] == 0, "escapeString of '%s': %zu bytes, %zu expected", src.c_str(), n, want.size());
        free(tight);
    }
    // searching
    vector<int> v(r.below(40));
    for (auto &e : v) e = r.below(100);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    for (int x = -1; x < 101; x++) {
        int k = binarySearch(v.data(), v.size(), &x, sizeof(int), cmpInt);
        auto f = std::lower_bound(v.begin(), v.end(), x);
        int want = f != v.end() && *f == x ? f - v.begin() : -1;
        CK(k == want, "binarySearch of %d: %d, %d expected", x, k, want);
    }
    // files of every size around the chunk boundaries
    string path = dir + "/f" + std::to_string(getpid());
    string data;
    size_t want = r.chance(30) ? r.below(70000) : r.below(130);
    while (data.size() < want) data += (char)r.next();
    FILE *fp = fopen(path.c_str(), "wb");
    fwrite(data.data(), 1, data.size(), fp);
    fclose(fp);
    size_t n = 77;
    char *p = readFile(path.c_str(), &n);
    CK(p && n == data.size() && memcmp(p, data.data(), n) == 0 && p[n] == 0, "readFile of %zu bytes gave %zu", data.size(), n);
    free(p);
    unlink(path.c_str());
    CK(readFile(path.c_str(), &n) == nullptr, "readFile of a missing file");
    return true;
}

int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    string kind = argv[1];
    string dir = argc > 4 ? argv[4] : ".";
    uint64_t first = strtoull(argv[2], nullptr, 10), count = strtoull(argv[3], nullptr, 10);
    if (kind == "strpool") findCollisions();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    int failed = 0;
    for (uint64_t s = first; s < first + count; s++) {
        Rng r(s);
        fprintf(stderr, "seed %llu\n", (unsigned long long)s);
        bool ok = kind == "hmap"      ? hmapHistory(r)
                  : kind == "htable"  ? htableHistory(r)
                  : kind == "array"   ? arrayHistory(r)
                  : kind == "sb"      ? sbHistory(r)
                  : kind == "strpool" ? strpoolHistory(r)
                  : kind == "mempool" ? mempoolHistory(r)
                  : kind == "format"  ? formatHistory(r)
                  : kind == "utils"   ? utilsHistory(r, dir)
                                      : false;
        if (!ok) { printf("FAIL %s %llu %s\n", kind.c_str(), (unsigned long long)s, what); failed = 1; if (++failed > 5) break; }
    }
    printf("events %llu colliding %zu\n", (unsigned long long)events, colliding.size());
    fflush(stdout);
    if (failed) _exit(1);           // an abandoned history leaks
    return 0;
}
