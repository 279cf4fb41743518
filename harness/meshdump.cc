// meshdump mesh sn out: everything the in-memory mesh reports, per process.
#include "vtmain.hh"

int main(int argc, char **argv)
{
    if (argc < 4) return 96;
    vt::start(&argc, &argv, atoi(argv[2]), 1, 1);
    vt::mesh(argv[1]);
    {
        vt::Out o(argv[3]);
        const TychoMesh &m = *g_tychoMesh;
        const UINT NS = m.getNSides();
        o.put("nCells", (uint64_t)g_nCells);
        o.put("nSides", (uint64_t)NS);
        o.put("nNodes", (uint64_t)m.getNNodes());
        o.put("nAngles", (uint64_t)g_nAngles);
        std::vector<uint64_t> u; std::vector<double> d;
        for (UINT a = 0; a < g_nAngles; a++) {
            std::vector<double> om = g_quadrature->getOmega(a);
            d.insert(d.end(), om.begin(), om.begin() + 3);
        }
        o.put("omega", d); d.clear();
        for (UINT c = 0; c < g_nCells; c++) u.push_back(m.getLGCell(c));
        o.put("lgCell", u); u.clear();
        for (UINT c = 0; c < g_nCells; c++) u.push_back(m.getCellMaterial(c));
        o.put("material", u); u.clear();
        for (UINT c = 0; c < g_nCells; c++) d.push_back(m.getCellVolume(c));
        o.put("volume", d); d.clear();
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT v = 0; v < 4; v++)
        for (UINT k = 0; k < 3; k++) d.push_back(m.getNodeCoord(m.getCellNode(c, v), k));
        o.put("coords", d); d.clear();
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT f = 0; f < 4; f++) d.push_back(m.getFaceArea(c, f));
        o.put("area", d); d.clear();
        for (UINT a = 0; a < g_nAngles; a++)
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT f = 0; f < 4; f++) d.push_back(m.getOmegaDotN(a, c, f));
        o.put("omegaDotN", d); d.clear();
        for (UINT a = 0; a < g_nAngles; a++)
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT f = 0; f < 4; f++) u.push_back((m.isOutgoing(a, c, f) ? 1 : 0) + (m.isIncoming(a, c, f) ? 2 : 0));
        o.put("inout", u); u.clear();
        std::vector<uint64_t> ac, af, sd, ar, f2c, c2f, nv;
        for (UINT c = 0; c < g_nCells; c++)
        for (UINT f = 0; f < 4; f++) {
            ac.push_back(m.getAdjCell(c, f)); af.push_back(m.getAdjFace(c, f));
            sd.push_back(m.getSide(c, f)); ar.push_back(m.getAdjRank(c, f));
            for (UINT v = 0; v < 3; v++) {
                f2c.push_back(m.getFaceToCellVrtx(c, f, v));
                nv.push_back(m.getNeighborVrtx(c, f, v));
            }
            for (UINT v = 0; v < 4; v++) c2f.push_back(v == f ? 9 : m.getCellToFaceVrtx(c, f, v));
        }
        o.put("adjCell", ac); o.put("adjFace", af); o.put("side", sd); o.put("adjRank", ar);
        o.put("faceToCellVrtx", f2c); o.put("neighborVrtx", nv); o.put("cellToFaceVrtx", c2f);
        std::vector<uint64_t> sc, lg, gl, acs, afs;
        for (UINT s = 0; s < NS; s++) {
            sc.push_back(m.getSideCell(s)); lg.push_back(m.getLGSide(s)); gl.push_back(m.getGLSide(m.getLGSide(s)));
            acs.push_back(m.getAdjCellFromSide(s)); afs.push_back(m.getAdjFaceFromSide(s));
        }
        o.put("sideCell", sc); o.put("lgSide", lg); o.put("glSide", gl);
        o.put("adjCellFromSide", acs); o.put("adjFaceFromSide", afs);
    }
    MPI_Finalize();
    return 0;
}
