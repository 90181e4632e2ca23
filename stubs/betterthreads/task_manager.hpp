#ifndef VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#define VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#include "typedefs.hpp"
namespace BetterThreads {
class TaskManager {
  public:
    static TaskManager& instance() { static TaskManager tm; return tm; }
    SizeType maximum_concurrency() const { return _max; }
    SizeType concurrency() const { return _c; }
    void set_concurrency(SizeType c) { _c=c; }
    void set_maximum_concurrency() { _c=_max; }
  private:
    SizeType _max=std::thread::hardware_concurrency(); SizeType _c=0;
};
} // namespace BetterThreads
#endif
