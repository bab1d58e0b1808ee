#pragma once
#include <sys/types.h>
#include <functional>
namespace sim {
void net_reset();
bool net_is(int fd);
ssize_t net_read(int fd, void* b, size_t n, int flags);
ssize_t net_write(int fd, const void* b, size_t n, int flags);
int net_close(int fd);
int net_dup(int fd, int to);
bool net_child();                 // the calling thread belongs to a simulated other process
void net_proc_exit(int code) __attribute__((noreturn));
// used by harness actors (in a phase)
int spawn_process(const char* name, std::function<void()> fn);   // an actor with its own descriptor table
void net_abort(int fd);           // reset the connection instead of closing it
void* net_handle(int fd); bool net_peer_closed(void* handle);
int child_status(int pid);        // -1 while running
}
