// Stand-in for the BetterThreads submodule (absent in this offline sandbox).
#ifndef VERIF_STUB_BETTERTHREADS_TYPEDEFS_HPP
#define VERIF_STUB_BETTERTHREADS_TYPEDEFS_HPP
#include <mutex>
#include <thread>
#include <memory>
#include <functional>
#include <list>
#include <map>
#include <cstdlib>
namespace BetterThreads {
using SizeType = std::size_t;
using Mutex = std::mutex;
template<class T> using LockGuard = std::lock_guard<T>;
template<class T> using UniqueLock = std::unique_lock<T>;
} // namespace BetterThreads
#endif
