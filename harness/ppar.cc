// Every process reads its partition and writes the records it got to <out>.<rank>.
#include "ParallelMesh.hh"
#include "Comm.hh"
#include <mpi.h>
#include <cstdio>
#include <cstring>
#include <string>

static void put(FILE *f, const uint64_t *u, size_t n) { if (fwrite(u, 8, n, f) != n) exit(97); }

int main(int argc, char *argv[])
{
    MPI_Init(&argc, &argv);
    if (argc < 3) return 64;
    ParallelMesh::PartitionData p;
    ParallelMesh::readInParallel(argv[1], p);
    std::string name = std::string(argv[2]) + "." + std::to_string(Comm::rank());
    FILE *f = fopen(name.c_str(), "wb");
    uint64_t h[3] = { p.numCells, p.numFaces, p.numNodes };
    put(f, h, 3);
    if (p.cellData.size() != p.numCells || p.faceData.size() != p.numFaces || p.nodeData.size() != p.numNodes) return 65;
    for (auto &c : p.cellData) { put(f, c.boundingFaces, 4); put(f, c.boundingNodes, 4); put(f, &c.globalID, 1); put(f, &c.materialIndex, 1); }
    for (auto &c : p.faceData) { put(f, c.boundingCells, 2); put(f, c.boundingNodes, 3); put(f, &c.globalID, 1); put(f, c.partition, 2); put(f, &c.boundaryType, 1); }
    for (auto &c : p.nodeData) { uint64_t x[3]; memcpy(x, c.coords, 24); put(f, x, 3); put(f, &c.globalID, 1); }
    fclose(f);
    MPI_Finalize();
    return 0;
}
