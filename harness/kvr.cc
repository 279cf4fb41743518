// kvr script out: runs a script of KeyValueReader calls.
// script lines: N | X | P | R file | (s|i|d|f|b) hexkey      out: one line "code value" per operation
#include "KeyValueReader.hh"
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <string>
using namespace CKG_Utils;

static std::string unhex(const std::string &h)
{
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s.push_back((char)std::stoi(h.substr(i, 2), 0, 16));
    return s;
}

int main(int argc, char **argv)
{
    if (argc < 3) return 96;
    std::ifstream in(argv[1]);
    FILE *out = fopen(argv[2], "w");
    KeyValueReader *k = new KeyValueReader();
    std::string line;
    int n = 0;
    while (std::getline(in, line)) {
        char op = line[0];
        std::string arg = line.size() > 2 ? line.substr(2) : "";
        printf("@@%d\n", n++);
        int code = 0;
        std::string sv = "#", key = (op == 'R' || op == 'N' || op == 'X' || op == 'P') ? "" : unhex(arg);
        int iv = 77; double dv = 77; float fv = 77; bool bv = true;
        char val[64] = "";
        std::string ret;
        try {
            switch (op) {
                case 'N': delete k; k = new KeyValueReader(); break;
                case 'X': k->reset(); break;
                case 'P': k->print(); break;
                case 'R': k->readFile(arg); break;
                case 's': sv = "junk"; k->getString(key, sv); break;
                case 'i': k->getInt(key, iv); break;
                case 'd': k->getDouble(key, dv); break;
#ifndef NO_FLOAT
                case 'f': k->getFloat(key, fv); break;
#endif
                case 'b': k->getBool(key, bv); break;
            }
        }
        catch (KeyValueReader::Exception e) {
            switch (e) {
                case KeyValueReader::ExceptionAlreadyReadAFile: code = 1; break;
                case KeyValueReader::ExceptionFileNotRead: code = 2; break;
                case KeyValueReader::ExceptionOpenFileError: code = 3; break;
                case KeyValueReader::ExceptionParseFileError: code = 4; break;
                case KeyValueReader::ExceptionKeyNotFound: code = 5; break;
                case KeyValueReader::ExceptionStringConversionError: code = 6; break;
            }
        }
        catch (...) { code = 99; }
        uint64_t u = 0; uint32_t w = 0;
        switch (op) {
            case 's': for (size_t i = 0; i < sv.size(); i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char)sv[i]); ret += b; } break;
            case 'i': snprintf(val, 64, "%d", iv); ret = val; break;
            case 'd': memcpy(&u, &dv, 8); snprintf(val, 64, "%016llx", (unsigned long long)u); ret = val; break;
            case 'f': memcpy(&w, &fv, 4); snprintf(val, 64, "%08x", w); ret = val; break;
            case 'b': ret = bv ? "1" : "0"; break;
        }
        fprintf(out, "%d:%s\n", code, ret.c_str());
    }
    delete k;
    fclose(out);
    return 0;
}
