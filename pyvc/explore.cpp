// Breadth-first search through the product of components whose transitions are asked for once.
#include <cstdint>
#include <cstring>
#include <chrono>
#include <unordered_map>
#include <vector>
using std::vector;
typedef int64_t i64;

// fill: results (state, out sequence) of component c in `state` on the given input sequences; returns their number
typedef int (*fill_t)(int c, int state, int nin, const int *ins, const int **res);
// info: of an atom: bit 0-1 value (0 false, 1 true, 2 unknown), bit 2 doomed for true, bit 3 doomed for false
typedef int (*info_t)(int c, int state);

struct VH {
    size_t operator()(const vector<int> &v) const {
        uint64_t h = 1469598103934665603ull;
        for (int x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
};

struct Entry { int n; int off; };

struct Comp {
    vector<int> in;     // -1: root
    vector<vector<Entry>> tab;  // [state][seq] for one input
    std::unordered_map<vector<int>, Entry, VH> multi;
    vector<signed char> inf;    // by state
};

struct Phi { int kind, a, b; };  // 0 atom(a=comp) 1 const(a: 0/1/2) 2 not(a=node) 3 and 4 or (a..b in kids)

struct Net {
    vector<Comp> comps;
    vector<int> pool;
    vector<Phi> phis;
    vector<int> kids;
    fill_t fill;
    info_t info;
    bool err = false;

    Entry look(int c, int s, const int *ins, int nin) {
        Comp &C = comps[c];
        if (nin == 1) {
            int q = ins[0];
            if ((int)C.tab.size() <= s) C.tab.resize(s + 1);
            if ((int)C.tab[s].size() <= q) C.tab[s].resize(q + 1, Entry{-1, 0});
            Entry e = C.tab[s][q];
            if (e.n >= 0) return e;
            const int *r;
            int n = fill(c, s, 1, ins, &r);
            if (n < 0) { err = true; return Entry{0, 0}; }
            e = Entry{n, (int)pool.size()};
            pool.insert(pool.end(), r, r + 2 * n);
            C.tab[s][q] = e;
            return e;
        }
        vector<int> k(ins, ins + nin);
        k.push_back(s);
        auto it = C.multi.find(k);
        if (it != C.multi.end()) return it->second;
        const int *r;
        int n = fill(c, s, nin, ins, &r);
        if (n < 0) { err = true; return Entry{0, 0}; }
        Entry e{n, (int)pool.size()};
        pool.insert(pool.end(), r, r + 2 * n);
        C.multi.emplace(k, e);
        return e;
    }
    int inf(int c, int s) {
        Comp &C = comps[c];
        if ((int)C.inf.size() <= s) C.inf.resize(s + 1, -1);
        if (C.inf[s] < 0) C.inf[s] = info(c, s);
        return C.inf[s];
    }
    int eval(int p, const int *st) {
        Phi f = phis[p];
        switch (f.kind) {
        case 0: return inf(f.a, st[f.a]) & 3;
        case 1: return f.a;
        case 2: { int v = eval(f.a, st); return v == 2 ? 2 : !v; }
        default: {
            int stop = f.kind == 4;
            bool unk = false;
            for (int i = f.a; i < f.b; i++) {
                int v = eval(kids[i], st);
                if (v == stop) return stop;
                unk |= v == 2;
            }
            return unk ? 2 : !stop;
        }
        }
    }
    bool doomed(int p, bool want, const int *st) {
        Phi f = phis[p];
        switch (f.kind) {
        case 0: return inf(f.a, st[f.a]) & (want ? 4 : 8);
        case 1: return f.a != 2 && f.a != (int)want;
        case 2: return doomed(f.a, !want, st);
        default: {
            bool hard = (f.kind == 3) == want;
            for (int i = f.a; i < f.b; i++)
                if (doomed(kids[i], want, st) == hard) return hard;
            return !hard;
        }
        }
    }
};

extern "C" {
Net *net_new(fill_t f, info_t i) { Net *n = new Net; n->fill = f; n->info = i; return n; }
void net_free(Net *n) { delete n; }
void net_comp(Net *n, int nin, const int *in) { Comp c; c.in.assign(in, in + nin); n->comps.push_back(c); }
int net_phi(Net *n, int kind, int a, int nk, const int *kids) {
    Phi p{kind, a, 0};
    if (kind >= 3) { p.a = n->kids.size(); n->kids.insert(n->kids.end(), kids, kids + nk); p.b = n->kids.size(); }
    n->phis.push_back(p);
    return n->phis.size() - 1;
}
// result: length of the word (letters in `word`), -1 none, -2 too many states, -3 error, -4 time
i64 net_search(Net *n, const int *init, int nlet, const int *letters, int endseq, int nw, const int *wphi, const int *wval, i64 limit, double seconds, int *word, i64 wcap, i64 *explored) {
    int K = n->comps.size();
    auto t0 = std::chrono::steady_clock::now();
    vector<int> arena(init, init + K);
    vector<int> parent{-1};
    vector<unsigned char> letter{0};
    vector<char> dead{0};
    size_t cap = 1 << 16;
    vector<int> table(cap, -1);
    auto hash = [&](const int *s) {
        uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < K; i++) { h ^= (uint32_t)s[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32; }
        return h;
    };
    auto put = [&](size_t idx) { size_t h = hash(&arena[idx * K]) & (cap - 1); while (table[h] >= 0) h = (h + 1) & (cap - 1); table[h] = idx; };
    put(0);
    vector<int> cur(K), nx(K), outs(K), insbuf(64);
    vector<Entry> ent(K);
    vector<int> pos(K);
    i64 found = -1;
    for (size_t at = 0; at < parent.size(); at++) {
        if (dead[at]) continue;
        if ((at & 1023) == 0) {
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (dt > seconds) { *explored = parent.size(); return -4; }
        }
        memcpy(cur.data(), &arena[at * K], K * sizeof(int));
        for (int l = -1; l < nlet; l++) {
            int root = l < 0 ? endseq : letters[l];
            int d = 0;
            bool enter = true;
            while (d >= 0) {
                if (d == K) {
                    if (l < 0) {
                        bool ok = true;
                        for (int w = 0; w < nw && ok; w++) { int v = n->eval(wphi[w], nx.data()); ok = v == 2 || v == wval[w]; }
                        if (ok) { found = at; goto done; }
                    } else {
                        size_t h = hash(nx.data()) & (cap - 1);
                        bool have = false;
                        while (table[h] >= 0) {
                            if (!memcmp(&arena[(size_t)table[h] * K], nx.data(), K * sizeof(int))) { have = true; break; }
                            h = (h + 1) & (cap - 1);
                        }
                        if (!have) {
                            bool dd = false;
                            for (int w = 0; w < nw && !dd; w++) dd = n->doomed(wphi[w], wval[w], nx.data());
                            table[h] = parent.size();
                            arena.insert(arena.end(), nx.begin(), nx.end());
                            parent.push_back(at);
                            letter.push_back(l);
                            dead.push_back(dd);
                            if (parent.size() * 2 > cap) {
                                cap *= 2;
                                table.assign(cap, -1);
                                for (size_t i = 0; i < parent.size(); i++) put(i);
                            }
                            if ((i64)parent.size() > limit) { *explored = parent.size(); return -2; }
                        }
                    }
                    d--;
                    enter = false;
                    continue;
                }
                if (enter) {
                    Comp &C = n->comps[d];
                    int nin = C.in.size();
                    if ((int)insbuf.size() < nin) insbuf.resize(nin);
                    for (int i = 0; i < nin; i++) insbuf[i] = C.in[i] < 0 ? root : outs[C.in[i]];
                    ent[d] = n->look(d, cur[d], insbuf.data(), nin);
                    if (n->err) return -3;
                    pos[d] = 0;
                }
                if (pos[d] >= ent[d].n) { d--; enter = false; continue; }
                const int *r = &n->pool[ent[d].off + 2 * pos[d]];
                pos[d]++;
                nx[d] = r[0];
                outs[d] = r[1];
                d++;
                enter = true;
            }
        }
    }
done:
    *explored = parent.size();
    if (found < 0) return -1;
    vector<int> w;
    for (i64 i = found; parent[i] >= 0; i = parent[i]) w.push_back(letter[i]);
    if ((i64)w.size() > wcap) return -3;
    for (size_t i = 0; i < w.size(); i++) word[i] = w[w.size() - 1 - i];
    return w.size();
}
}
