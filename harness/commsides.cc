// commsides mesh sn groups config out
// config: one exchange per line: object(0|1) seed delay
#include "vtmain.hh"
#include "CommSides.hh"
#include <unistd.h>

static double dbl(uint64_t h)
{
    // mostly arbitrary bit patterns (including NaNs, infinities, denormals), some special values
    switch (h >> 59) {
        case 0: h = 0x8000000000000000ull; break;
        case 1: h &= 0xfffffffffffffull; break;                    // denormal
        case 2: h = 0x7ff8000000000000ull | (h & 0xffffffff); break;
        case 3: h = 0; break;
        default: break;
    }
    double d; memcpy(&d, &h, 8); return d;
}

template <class T> static void bits(vt::Out &o, const std::string &n, const T &x)
{
    std::vector<uint64_t> u(x.size());
    for (size_t i = 0; i < x.size(); i++) { double d = x[i]; memcpy(&u[i], &d, 8); }
    o.put(n.c_str(), u);
}

int main(int argc, char **argv)
{
    if (argc < 6) return 96;
    vt::start(&argc, &argv, atoi(argv[2]), atoi(argv[3]), 1);
    vt::mesh(argv[1]);
    {
        vt::Out o(argv[5]);
        std::vector<uint64_t> u;
        for (UINT c = 0; c < g_nCells; c++) u.push_back(g_tychoMesh->getLGCell(c));
        o.put("lgCell", u); u.clear();
        for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) u.push_back(g_tychoMesh->getSide(c, f));
        o.put("side", u); u.clear();
        for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++) for (UINT k = 0; k < 3; k++)
            u.push_back(g_tychoMesh->getFaceToCellVrtx(c, f, k));
        o.put("f2c", u); u.clear();
        for (UINT a = 0; a < g_nAngles; a++) for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++)
            u.push_back((g_tychoMesh->isOutgoing(a, c, f) ? 1 : 0) + (g_tychoMesh->isIncoming(a, c, f) ? 2 : 0));
        o.put("inout", u);
        CommSides x[2];
        FILE *f = fopen(argv[4], "r");
        unsigned long ob, seed, delay;
        int k = 0;
        PsiBoundData pb;
        for (size_t i = 0; i < pb.size(); i++) pb[i] = dbl(vt::mix(i, Comm::rank(), 12345, 7));
        while (fscanf(f, "%lu %lu %lu", &ob, &seed, &delay) == 3) {
            PsiData psi;
            for (size_t i = 0; i < psi.size(); i++) psi[i] = dbl(vt::mix(i, Comm::rank(), seed, k));
            std::string n = std::to_string(k);
            bits(o, "before" + n, pb);
            bits(o, "psi" + n, psi);
            if (delay) usleep(vt::mix(Comm::rank(), delay, k, 1) % 800);
            x[ob & 1].commSides(psi, pb);
            bits(o, "psiafter" + n, psi);
            bits(o, "after" + n, pb);
            k++;
        }
        fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
