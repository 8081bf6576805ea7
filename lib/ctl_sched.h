// Controlled scheduler: runs real std::thread code one thread at a time and lets the explorer pick the next thread
// at every synchronisation operation (pthread_* interposition), every atomic access and every marked point.
#pragma once
#include <functional>
namespace sched {
enum { ROLE_BASE = 16 };
void run(const std::function<void()>& body);   // body runs as thread 0 under control; fails on deadlock, livelock, data race, leaked thread
void enter(int role, const char* what);         // scheduling point, then mutual exclusion per role (fails if somebody is inside)
void point(int role);                           // scheduling point inside a role (dependent with other accesses of the role)
void leave(int role);
void await(volatile int* flag);                 // blocks (in the model) until *flag != 0
void set(volatile int* flag);
int self();                                     // id of the running controlled thread
int created();                                  // controlled threads created in this run (besides thread 0)
bool was_cut();
}
