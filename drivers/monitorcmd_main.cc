// the command itself, to be called by monitorcmd.cc
#define main shmmonitor_main
#include <shmem/runMonitor.cxx>
