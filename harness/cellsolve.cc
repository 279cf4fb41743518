// cellsolve mesh sn groups input out: every cell x direction x elimination method, with given sigma, inflow and source.
// input: sigma[cell], bound[cell][angle][face][cvrtx][group], source[cell][angle][vrtx][group]; cells by global number
#include "vtmain.hh"
#include "Mat.hh"
#include "Transport.hh"

int main(int argc, char **argv)
{
    if (argc < 6) return 96;
    vt::start(&argc, &argv, atoi(argv[2]), atoi(argv[3]), 1);
    vt::mesh(argv[1]);
    {
        std::vector<char> in = vt::slurp(argv[4]);
        const double *p = (const double *)in.data();
        const UINT C = g_nCells, A = g_nAngles, G = g_nGroups;
        if (in.size() != 8 * (C + C * A * 16 * G + C * A * 4 * G)) return 95;
        const double *sg = p, *bd = p + C, *sr = bd + C * A * 16 * G;
        vt::Out o(argv[5]);
        std::vector<double> vol(C), area(C * 4), odn(C * A * 4);
        for (UINT c = 0; c < C; c++) {
            UINT g = g_tychoMesh->getLGCell(c);
            vol[g] = g_tychoMesh->getCellVolume(c);
            for (UINT f = 0; f < 4; f++) {
                area[4 * g + f] = g_tychoMesh->getFaceArea(c, f);
                for (UINT a = 0; a < A; a++) odn[(g * A + a) * 4 + f] = g_tychoMesh->getOmegaDotN(a, c, f);
            }
        }
        o.put("volume", vol); o.put("area", area); o.put("omegaDotN", odn);
        static const GaussElim ms[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
        static const char *names[4] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
        for (int k = 0; k < 4; k++) {
            g_gaussElim = ms[k];
            std::vector<double> res(C * A * 4 * G);
            Mat3<double> b(3, 4, G);
            Mat2<double> s(4, G), x(4, G);
            for (UINT c = 0; c < C; c++) {
                UINT g = g_tychoMesh->getLGCell(c);
                for (UINT a = 0; a < A; a++) {
                    for (UINT f = 0; f < 4; f++)
                    for (UINT fv = 0; fv < 3; fv++)
                    for (UINT q = 0; q < G; q++)
                        b(fv, f, q) = bd[(((g * A + a) * 4 + f) * 4 + g_tychoMesh->getFaceToCellVrtx(c, f, fv)) * G + q];
                    for (UINT v = 0; v < 4; v++)
                    for (UINT q = 0; q < G; q++) {
                        s(v, q) = sr[((g * A + a) * 4 + v) * G + q];
                        x(v, q) = 1e300;
                    }
                    Transport::solve(c, a, sg[g], b, s, x);
                    for (UINT v = 0; v < 4; v++)
                    for (UINT q = 0; q < G; q++)
                        res[((g * A + a) * 4 + v) * G + q] = x(v, q);
                }
            }
            o.put(names[k], res);
        }
    }
    MPI_Finalize();
    return 0;
}
