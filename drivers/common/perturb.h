// Included in front of every source of the multi-threaded builds: the library's lock operations become points at which the
// scheduler is disturbed and the order of events is recorded.  (Code that uses other locks simply has fewer such points.)
#pragma once
#include <pthread.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <memory>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
extern "C" void vf_perturb(int where);
inline int vf_mutex_lock(pthread_mutex_t* m){ vf_perturb(1); int r=pthread_mutex_lock(m); vf_perturb(2); return r; }
inline int vf_mutex_unlock(pthread_mutex_t* m){ vf_perturb(3); int r=pthread_mutex_unlock(m); vf_perturb(4); return r; }
#define pthread_mutex_lock vf_mutex_lock
#define pthread_mutex_unlock vf_mutex_unlock
