// schedule mesh sn config out
// config: one schedule per line: maxCellsPerStep intraAngleP interAngleP nAngles angle...
// Writes the schedules; then the priorities of the traversal sweep for every combination of options ("prio<intra><inter>").
#include "vtmain.hh"
#include "SweepSchedule.hh"
#include "Priorities.hh"
#include "Mat.hh"

int main(int argc, char **argv)
{
    if (argc < 5) return 96;
    vt::start(&argc, &argv, atoi(argv[2]), 1, argc > 5 ? atoi(argv[5]) : 1);
    vt::mesh(argv[1]);
    {
        vt::Out o(argv[4]);
        std::vector<uint64_t> u;
        for (UINT c = 0; c < g_nCells; c++) u.push_back(g_tychoMesh->getLGCell(c));
        o.put("lgCell", u); u.clear();
        for (UINT a = 0; a < g_nAngles; a++) for (UINT c = 0; c < g_nCells; c++) for (UINT f = 0; f < 4; f++)
            u.push_back((g_tychoMesh->isOutgoing(a, c, f) ? 1 : 0) + (g_tychoMesh->isIncoming(a, c, f) ? 2 : 0));
        o.put("inout", u);
        FILE *f = fopen(argv[3], "r");
        unsigned long mx, ia, ie, na;
        int k = 0;
        while (fscanf(f, "%lu %lu %lu %lu", &mx, &ia, &ie, &na) == 4) {
            std::vector<UINT> angles(na);
            for (size_t i = 0; i < na; i++) { unsigned long a; if (fscanf(f, "%lu", &a) != 1) return 95; angles[i] = a; }
            SweepSchedule s(angles, mx, ia, ie);
            std::vector<uint64_t> work, send, recv;
            for (UINT t = 0; t < s.nSteps(); t++) {
                for (size_t i = 0; i < s.getWork(t).size(); i++) {
                    work.push_back(t); work.push_back(s.getWork(t)[i].getCell()); work.push_back(s.getWork(t)[i].getAngle());
                }
                for (size_t i = 0; i < s.getSendProcs(t).size(); i++) { send.push_back(t); send.push_back(s.getSendProcs(t)[i]); }
                for (size_t i = 0; i < s.getRecvProcs(t).size(); i++) { recv.push_back(t); recv.push_back(s.getRecvProcs(t)[i]); }
            }
            std::string n = std::to_string(k++);
            o.put(("steps" + n).c_str(), (uint64_t)s.nSteps());
            o.put(("work" + n).c_str(), work);
            o.put(("send" + n).c_str(), send);
            o.put(("recv" + n).c_str(), recv);
        }
        fclose(f);
        if (argc > 6) {
            for (int ia = 0; ia < 5; ia++) for (int ie = 0; ie < 3; ie++) {
                g_intraAngleP = ia; g_interAngleP = ie; g_maxCellsPerStep = atoi(argv[6]);
                Mat2<UINT> p(g_nCells, g_nAngles);
                Priorities::calcPriorities(p);
                u.clear();
                for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) u.push_back(p(c, a));
                o.put(("prio" + std::to_string(ia) + std::to_string(ie)).c_str(), u);
            }
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
