// deletion through the base class, as the owners of processes do it
#include "Process.hh"
extern "C" void drop_process(Process* p) { delete p; }
