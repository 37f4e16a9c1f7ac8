#include "fakeshm.h"
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace fakeshm {
std::function<void(const char*, const char*)> hook;
std::function<int(const char*, const char*)> fault;
std::vector<std::string> unlinked_files;
std::string file_prefix;
long resizes = 0;
namespace {
std::map<std::string, int>& tab() { static auto* t = new std::map<std::string, int>; return *t; }
struct NamedSem { sem_t s; bool linked; };
std::map<std::string, NamedSem*>& sems() { static auto* t = new std::map<std::string, NamedSem*>; return *t; }
std::vector<NamedSem*>& allsems() { static auto* t = new std::vector<NamedSem*>; return *t; }
std::string norm(const char* n) { return *n == '/' ? n + 1 : n; }
// true if the call fails by injected fault (errno is set)
bool call(const char* what, const char* name)
{
    if (hook) hook(what, name);
    if (!fault) return false;
    int e = fault(what, name);
    if (e) errno = e;
    return e != 0;
}
}   // namespace
void reset()
{
    mc::Quiet q;
    hook = nullptr;
    fault = nullptr;
    unlinked_files.clear();
    for (auto& e : tab()) ::close(e.second);
    tab().clear();
    sems().clear();
    for (auto* s : allsems()) delete s;
    allsems().clear();
    resizes = 0;
}
std::set<std::string> objects()
{
    mc::Quiet q;
    std::set<std::string> r;
    for (auto& e : tab()) r.insert(e.first);
    for (auto& e : sems()) r.insert("sem." + e.first);
    return r;
}
bool exists(const std::string& n) { mc::Quiet q; return tab().count(n) || (n.rfind("sem.", 0) == 0 && sems().count(n.substr(4))); }
uint64_t hash(const std::string& name)
{
    mc::Quiet q;
    auto it = tab().find(name);
    if (it == tab().end()) return 0;
    struct stat st;
    fstat(it->second, &st);
    uint64_t h = 1469598103934665603ull ^ uint64_t(st.st_size);
    if (st.st_size == 0) return h;
    auto* p = static_cast<const char*>(mmap(nullptr, size_t(st.st_size), PROT_READ, MAP_SHARED, it->second, 0));
    for (off_t d = lseek(it->second, 0, SEEK_DATA); d >= 0 && d < st.st_size;) {      // zero pages do not count
        off_t e = lseek(it->second, d, SEEK_HOLE);
        if (e < 0) e = st.st_size;
        for (off_t o = d; o + 8 <= e; o += 8) {
            uint64_t w;
            memcpy(&w, p + o, 8);
            if (w) { h ^= w + uint64_t(o); h *= 1099511628211ull; }
        }
        d = lseek(it->second, e, SEEK_DATA);
    }
    munmap(const_cast<char*>(p), size_t(st.st_size));
    return h;
}
void put(const std::string& name, size_t size)
{
    mc::Quiet q;
    int fd = int(syscall(SYS_memfd_create, name.substr(0, 200).c_str(), MFD_CLOEXEC));
    if (fd < 0 || ::ftruncate(fd, off_t(size)) != 0) mc::fail("memfd_create failed");
    auto it = tab().find(name);
    if (it != tab().end()) ::close(it->second);
    tab()[name] = fd;
}
}   // namespace fakeshm
using namespace fakeshm;

extern "C" {
int shm_open(const char* name, int flags, mode_t)
{
    if (call((flags & O_CREAT) ? "shm_open create" : "shm_open", name)) return -1;
    mc::Quiet q;
    std::string n = norm(name);
    auto it = tab().find(n);
    if (it == tab().end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        int fd = int(syscall(SYS_memfd_create, n.substr(0, 200).c_str(), MFD_CLOEXEC));
        if (fd < 0) { errno = EMFILE; return -1; }
        tab()[n] = fd;
        return fcntl(fd, F_DUPFD_CLOEXEC, 0);
    }
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) { if (::ftruncate(it->second, 0) != 0) return -1; }
    return fcntl(it->second, F_DUPFD_CLOEXEC, 0);
}
int shm_unlink(const char* name)
{
    call("shm_unlink", name);
    mc::Quiet q;
    auto it = tab().find(norm(name));
    if (it == tab().end()) { errno = ENOENT; return -1; }
    ::close(it->second);
    tab().erase(it);
    return 0;
}
int posix_fallocate(int fd, off_t off, off_t len)
{
    if (call("allocate", "")) return errno;
    {
        mc::Quiet q;
        struct stat st;
        if (fstat(fd, &st) != 0) return errno;
        ++resizes;
        if (st.st_size < off + len && ::ftruncate(fd, off + len) != 0) return errno;
    }
    if (hook) hook("allocated", "");
    return 0;
}
int mlock(const void*, size_t) { return call("mlock", "") ? -1 : 0; }
int posix_fallocate64(int fd, off_t off, off_t len) { return posix_fallocate(fd, off, len); }
sem_t* sem_open(const char* name, int flags, ...)
{
    if (call((flags & O_CREAT) ? "sem_open create" : "sem_open", name)) return SEM_FAILED;
    mc::Quiet q;
    std::string n = norm(name);
    auto it = sems().find(n);
    if (it != sems().end()) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        return &it->second->s;
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    va_list ap;
    va_start(ap, flags);
    (void)va_arg(ap, int);
    unsigned v = va_arg(ap, unsigned);
    va_end(ap);
    auto* s = new NamedSem;
    sem_init(&s->s, 0, v);
    allsems().push_back(s);
    sems()[n] = s;
    return &s->s;
}
int sem_close(sem_t*) { return 0; }
int sem_unlink(const char* name)
{
    call("sem_unlink", name);
    mc::Quiet q;
    if (!sems().erase(norm(name))) { errno = ENOENT; return -1; }
    return 0;
}
// file removal: only below the scratch prefix
static bool allowed(const char* p)
{
    mc::Quiet q;
    if (!file_prefix.empty() && strncmp(p, file_prefix.c_str(), file_prefix.size()) == 0 && !strstr(p, "..")) return true;
    unlinked_files.push_back(p);
    return false;
}
int unlink(const char* p)
{
    call("unlink", p);
    if (!allowed(p)) { errno = ENOENT; return -1; }
    return int(syscall(SYS_unlink, p));
}
int remove(const char* p)
{
    call("unlink", p);
    if (!allowed(p)) { errno = ENOENT; return -1; }
    return int(syscall(SYS_unlink, p));
}
}
