// Round trips and partitioning with the repository's mesh classes (serial reader).
#include "SerialMesh.hh"
#include "ParallelMesh.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

int main(int argc, char *argv[])
{
    if (argc < 2) return 64;
    std::string cmd = argv[1];
    if (cmd == "sround" && argc == 4) {
        SerialMesh m;
        m.read(argv[2]);
        m.write(argv[3]);
        return 0;
    }
    if (cmd == "sround2" && argc == 5) {        // one object reads two files, then writes
        SerialMesh m;
        m.read(argv[2]);
        m.read(argv[3]);
        m.write(argv[4]);
        return 0;
    }
    if (cmd == "pround" && argc == 4) {
        ParallelMesh m;
        m.read(argv[2]);
        m.write(argv[3]);
        return 0;
    }
    if (cmd == "pround2" && argc == 5) {
        ParallelMesh m;
        m.read(argv[2]);
        m.read(argv[3]);
        m.write(argv[4]);
        return 0;
    }
    if (cmd == "create" && argc == 6) {         // serial mesh, partition vector (text), count, output
        SerialMesh s;
        s.read(argv[2]);
        std::vector<uint64_t> part;
        FILE *f = fopen(argv[3], "r");
        unsigned long v;
        while (fscanf(f, "%lu", &v) == 1) part.push_back(v);
        fclose(f);
        ParallelMesh m;
        m.createFromSerialMesh(s, part, atoi(argv[4]));
        m.write(argv[5]);
        return 0;
    }
    return 64;
}
