// In-process stand-in for libzmq's sockets (its message functions are the real ones).  Blocking,
// time-outs and delivery go through a mutex and a condition variable, so the engine controls them.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <zmq.h>

namespace fakezmq {
enum Op { SEND, RECV, POLL, BIND, CONNECT, SOCKET };
void reset();
void lost();                                     // as reset(), after a simulated crash: leaves what threads that are gone may have locked
// asked before every operation: 0 = proceed, EINTR / EAGAIN / ETERM / ... = fail with it
extern std::function<int(Op, void* sock)> fault;
extern std::function<int(const std::string& address)> bindfault;
extern int last_flags;                   // flags of the send / receive the fault function is asked about
// asked before every later part of a multi-part message is sent / received
extern std::function<int(Op, void* sock)> midfault;
// replaces what zmq_poll would see of a socket: (readable, writable)
extern std::function<std::pair<bool, bool>(void* sock)> readiness;
void forget(void* sock);                 // drop parts of unfinished multi-part messages
struct Attach { void* sock; bool bind; std::string address; int rc; std::string identity; long serial; };   // serial: of the socket
extern std::vector<Attach> attaches;
extern long blocked_nowait;              // operations that had to wait although ZMQ_DONTWAIT was given (never)
size_t queued(void* sock);               // complete messages waiting to be received by this socket
int open_sockets();
int option(void* sock, int opt);
long serial(void* sock);
std::string identity(void* sock);
void* find(const std::string& identity); // socket by ZMQ_IDENTITY
int partial_out(void* sock);             // parts of an unfinished multi-part message
extern long shortmsgs;                   // receive into a buffer that was too small
extern long polls;
}   // namespace fakezmq
