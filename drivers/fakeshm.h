// In-process stand-in for the POSIX shared memory / named semaphore namespace and file removal:
// nothing outside this process is ever created or deleted.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace fakeshm {
void reset();                                   // forget everything (start of an execution)
std::set<std::string> objects();                // names present: shm objects "x", semaphores "sem.x"
bool exists(const std::string& name);
void put(const std::string& name, size_t size); // plant a foreign object
// every call that creates/opens/removes something is reported here first (crash points)
extern std::function<void(const char* what, const char* name)> hook;
// fault injection: a non-zero errno makes the call fail ("shm_open create", "allocate", "mlock", ...)
extern std::function<int(const char* what, const char* name)> fault;
uint64_t hash(const std::string& name);         // of an object's size and content
extern std::vector<std::string> unlinked_files; // file paths handed to unlink/remove, outside allowed prefix
extern std::string file_prefix;                 // real file removals are only executed below this path
extern long resizes;                            // number of ftruncate calls on objects
}   // namespace fakeshm
