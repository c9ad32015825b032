S=dict(property='C21',needs='three ranks, two histograms, and a rank that is so fast that its second histogram arrives before the first one of a slower rank',
breaks='Ranks no longer wait for each other after a histogram: the master takes messages from any rank, so it can add a bin array of the next histogram to this one',
edits=[('Source/IO/Output/OutputManager.cpp','''    // Wait for everyone to finish
    MPI_Barrier(MPI_COMM_WORLD);
}
#endif''','''}
#endif''')],
ld='-DUSEMPI -I"$here" -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5',
files={'mpi.h': r'''
// stand-in for MPI, as rank 0 sees it: messages of other ranks wait in queues
#pragma once
#include <deque>
#include <vector>
#include <cstdlib>
#include <cstring>
#define MPI_COMM_WORLD 0
#define MPI_DOUBLE 8
#define MPI_INT 4
#define MPI_ANY_SOURCE (-1)
struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int bytes; };
struct Message { int tag; std::vector<char> data; int epoch; };   // epoch: number of barriers the sender has passed before it sends
extern std::deque<Message> queues[3];
extern int barriers;
inline int MPI_Comm_rank(int, int* r) { *r = 0; return 0; }
inline int MPI_Comm_size(int, int* n) { *n = 3; return 0; }
inline int find(int source, int tag, int& k)
{
    for (int r = 1; r < 3; r++) if (source == MPI_ANY_SOURCE || source == r)
        for (k = 0; k < (int) queues[r].size(); k++) if (queues[r][k].epoch <= barriers && queues[r][k].tag == tag) return r;
    std::exit(5);   // would wait for ever
}
inline int MPI_Probe(int s, int t, int, MPI_Status* st) { int k, r = find(s, t, k); st->MPI_SOURCE = r; st->MPI_TAG = t; st->bytes = queues[r][k].data.size(); return 0; }
inline int MPI_Get_count(MPI_Status* st, int type, int* n) { *n = st->bytes / type; return 0; }
inline int MPI_Recv(void* p, int n, int type, int s, int t, int, MPI_Status* st)
{
    int k, r = find(s, t, k);
    if ((int) queues[r][k].data.size() > n * type) std::exit(6);
    std::memcpy(p, queues[r][k].data.data(), queues[r][k].data.size()); st->MPI_SOURCE = r; st->MPI_TAG = t;
    queues[r].erase(queues[r].begin() + k); return 0;
}
inline int MPI_Send(const void*, int, int, int, int, int) { return 0; }
inline int MPI_Barrier(int) { barriers++; return 0; }
'''},
demo=r'''
#include <bits/stdc++.h>
#include "OutputManager.cpp"
std::deque<Message> queues[3];
int barriers = 0;
// what a worker does, with the program as it is: send the bins of each histogram, and wait where the master waits
int perHistogram;
void send(int r, int h, double v)
{
    std::vector<double> b(2, v); Message m; m.tag = 0; m.epoch = h * perHistogram; m.data.resize(16); std::memcpy(m.data.data(), b.data(), 16); queues[r].push_back(m);
}
int main()
{
    // count the barriers of one call
    {
        perHistogram = 0; OutputManager o("probe.h5"); Histogram h("p", "electron", "x", 0.0, 0.0, 1.0, 2);
        send(1, 0, 0); send(2, 0, 0); o.OutputHistMPI(&h); perHistogram = barriers; barriers = 0;
    }
    {
        OutputManager o("o.h5");
        Histogram a("a", "electron", "x", 0.0, 0.0, 1.0, 2), b("b", "electron", "x", 0.0, 0.0, 1.0, 2);
        send(1, 0, 1); send(1, 1, 100); send(2, 0, 2); send(2, 1, 200);
        o.OutputHistMPI(&a); o.OutputHistMPI(&b);
    }
    H5::H5File f("o.h5", H5F_ACC_RDONLY); double x[2], y[2];
    f.openDataSet("Histograms/a/BinValues").read(x, H5::PredType::NATIVE_DOUBLE); f.openDataSet("Histograms/b/BinValues").read(y, H5::PredType::NATIVE_DOUBLE);
    std::cout << x[0] << " " << y[0] << "\n";
    return x[0] == 3 && y[0] == 300 ? 0 : 1;
}
''')
