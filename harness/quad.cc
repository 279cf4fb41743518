// quad sn out: the directions and weights of one quadrature.
#include "vtmain.hh"

int main(int argc, char **argv)
{
    if (argc < 3) return 96;
    vt::start(&argc, &argv, (UINT)strtoull(argv[1], NULL, 10), 1, 1);
    {
        vt::Out o(argv[2]);
        std::vector<double> mu, eta, xi, w, om;
        for (UINT a = 0; a < g_nAngles; a++) {
            mu.push_back(g_quadrature->getMu(a)); eta.push_back(g_quadrature->getEta(a));
            xi.push_back(g_quadrature->getXi(a)); w.push_back(g_quadrature->getWt(a));
            std::vector<double> v = g_quadrature->getOmega(a);
            om.insert(om.end(), v.begin(), v.end());
        }
        o.put("nAngles", (uint64_t)g_nAngles);
        o.put("mu", mu); o.put("eta", eta); o.put("xi", xi); o.put("w", w); o.put("omega", om);
    }
    MPI_Finalize();
    return 0;
}
