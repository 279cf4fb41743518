// traverse mesh sn threads config out
// config: one traversal per line: direction(0 forward, 1 backward) comm(0|1) dataSize maxPerStep mpi(0 Tycho, 1 Capsaicin)
//         priorityMode priorityMod delayMode
// Writes an event log per traversal: rows of 12 numbers
//   kind (0 update starts, 1 update ends, 2 side data, 3 data requested), sequence number, thread,
//   cell|side, angle, face|intact, four adjacency values, packed boundary types, priority
#include "vtmain.hh"
#include "GraphTraverser.hh"
#include "Mat.hh"
#include <atomic>
#include <map>
#include <tuple>
#include <unistd.h>

static const size_t W = 12;

struct Rec : public TraverseData {
    UINT size, trav, mode, mod, delay;
    std::atomic<uint64_t> seq;
    std::vector<std::vector<uint64_t>> log;
    std::vector<std::vector<char>> buf;
    std::vector<char> done;
    Rec(UINT s, UINT t, UINT m, UINT k, UINT d) : size(s), trav(t), mode(m), mod(k), delay(d), seq(0), log(g_nThreads),
        buf(g_nThreads), done(g_nCells * g_nAngles, 0) {}
    size_t thr() { size_t t = omp_get_thread_num(); if (t >= log.size()) { fprintf(stderr, "VT: thread %zu\n", t); exit(94); } return t; }
    static void fill(char *p, UINT n, UINT gside, UINT angle, UINT trav, UINT poison) {
        for (UINT i = 0; i < n; i++) {
            uint64_t h = vt::mix(gside, angle, trav + 1000 * poison, i / 8);
            p[i] = (char)(h >> (8 * (i % 8)));
        }
    }
    void ev(uint64_t kind, uint64_t a, uint64_t b, uint64_t c, const uint64_t *adj = NULL, uint64_t bt = 0, uint64_t pr = 0) {
        size_t t = thr();
        uint64_t r[W] = {kind, seq++, t, a, b, c, adj ? adj[0] : 0, adj ? adj[1] : 0, adj ? adj[2] : 0, adj ? adj[3] : 0, bt, pr};
        log[t].insert(log[t].end(), r, r + W);
    }
    virtual const char *getData(UINT cell, UINT face, UINT angle) {
        size_t t = thr();
        ev(3, cell, angle, face);
        // a block of exactly the announced size that replaces the previous one
        std::vector<char> b(size);
        UINT side = g_tychoMesh->getSide(cell, face);
        fill(b.data(), size, g_tychoMesh->getLGSide(side), angle, trav, done[cell * g_nAngles + angle] ? 0 : 1);
        if (!buf[t].empty()) memset(buf[t].data(), 0x5a, buf[t].size());
        buf[t].swap(b);
        return buf[t].data();
    }
    virtual void setSideData(UINT side, UINT angle, const char *data) {
        std::vector<char> b(size);
        fill(b.data(), size, g_tychoMesh->getLGSide(side), angle, trav, 0);
        ev(2, side, angle, memcmp(b.data(), data, size) == 0 ? 1 : 0);
    }
    UINT prio(UINT cell, UINT angle) {
        UINT g = g_tychoMesh->getLGCell(cell);
        switch (mode) {
            case 0: return 0;
            case 1: return vt::mix(g, angle, 77, trav) % (mod ? mod : 1);
            case 2: return g;
            case 3: return 1000000 - angle;
            default: return vt::mix(g, angle, 78, trav);       // full 64-bit range
        }
    }
    virtual UINT getPriority(UINT cell, UINT angle) { return prio(cell, angle); }
    virtual void update(UINT cell, UINT angle, UINT adj[g_nFacePerCell], BoundaryType bt[g_nFacePerCell]) {
        uint64_t p = 0;
        for (int f = 0; f < 4; f++) p |= (uint64_t)bt[f] << (8 * f);
        uint64_t a[4] = {adj[0], adj[1], adj[2], adj[3]};
        ev(0, cell, angle, 0, a, p, prio(cell, angle));
        if (delay) {
            uint64_t h = vt::mix(g_tychoMesh->getLGCell(cell), angle, trav, 5);
            if (delay == 1 && h % 16 == 0) usleep(h / 16 % 300);
            if (delay == 2 && Comm::rank() == (int)(trav % Comm::numRanks())) usleep(20 + h % 60);
            if (delay == 3 && angle % g_nThreads == 0) usleep(h % 40);
        }
        done[cell * g_nAngles + angle] = 1;
        ev(1, cell, angle, 0);
    }
};

int main(int argc, char **argv)
{
    if (argc < 6) return 96;
    vt::start(&argc, &argv, atoi(argv[2]), 1, atoi(argv[3]));
    vt::mesh(argv[1]);
    {
        vt::Out o(argv[5]);
        std::vector<uint64_t> u;
        for (UINT c = 0; c < g_nCells; c++) u.push_back(g_tychoMesh->getLGCell(c));
        o.put("lgCell", u); u.clear();
        for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) u.push_back(g_tychoMesh->getSide(c, f));
        o.put("side", u); u.clear();
        for (UINT a = 0; a < g_nAngles; a++) for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++)
            u.push_back((g_tychoMesh->isOutgoing(a, c, f) ? 1 : 0) + (g_tychoMesh->isIncoming(a, c, f) ? 2 : 0));
        o.put("inout", u);
        std::map<std::tuple<int, int, UINT>, GraphTraverser*> trs;
        FILE *f = fopen(argv[4], "r");
        unsigned long d, c, s, mx, mpi, pm, pk, dl;
        UINT k = 0;
        while (fscanf(f, "%lu %lu %lu %lu %lu %lu %lu %lu", &d, &c, &s, &mx, &mpi, &pm, &pk, &dl) == 8) {
            g_mpiType = mpi ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
            GraphTraverser *&t = trs[std::make_tuple((int)d, (int)c, (UINT)s)];
            if (t == NULL) t = new GraphTraverser(d ? Direction_Backward : Direction_Forward, c != 0, s);
            Rec r(s, k, pm, pk, dl);
            t->traverse(mx, r);
            std::vector<uint64_t> all;
            for (size_t i = 0; i < r.log.size(); i++) all.insert(all.end(), r.log[i].begin(), r.log[i].end());
            o.put(("log" + std::to_string(k)).c_str(), all);
            k++;
        }
        fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
