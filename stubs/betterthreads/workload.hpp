// Stand-in for the BetterThreads submodule: a work list processed by the calling thread.
// The order in which pending elements are taken is a *schedule*, chosen by the harness:
// a multi-threaded workload gives no ordering guarantee, so every schedule is legal.
#ifndef VERIF_STUB_BETTERTHREADS_WORKLOAD_HPP
#define VERIF_STUB_BETTERTHREADS_WORKLOAD_HPP
#include "typedefs.hpp"
#include "io/progress_indicator.hpp"
#include <deque>
#include <vector>
#include <cstdint>
namespace BetterThreads {
struct Schedule {                       // 0: FIFO, 1: LIFO, >=2: pseudo-random with that seed
    static std::uint64_t& mode() { static std::uint64_t m=0; return m; }
    static std::uint64_t& state() { static std::uint64_t s=88172645463325252ull; return s; }
    static void set(std::uint64_t m) { mode()=m; state()=88172645463325252ull^(m*0x9E3779B97F4A7C15ull); }
    static std::size_t pick(std::size_t n) {
        if(mode()==0) return 0; if(mode()==1) return n-1;
        auto& s=state(); s^=s<<13; s^=s>>7; s^=s<<17; return (s>>16)%n;
    }
};
template<class E, class... AS> class DynamicWorkload {
  public:
    class Access {
      public:
        Access(DynamicWorkload& w) : _w(w) {}
        Access& append(E const& e) { _w._pending.push_back(e); return *this; }
      private:
        DynamicWorkload& _w;
    };
    typedef std::function<void(Access&,E const&,AS...)> Fn;
    typedef std::function<void(E const&,std::shared_ptr<Ariadne::ProgressIndicator>)> Ack;
    template<class F> DynamicWorkload(Ack ack, F f, AS... as)
        : _ack(ack), _f([=](Access& a, E const& e){ std::function<void(Access&,E const&,AS...)> g=f; g(a,e,as...); }) { }
    DynamicWorkload& append(E const& e) { _pending.push_back(e); return *this; }
    template<class C> requires(!std::is_convertible_v<C,E>) DynamicWorkload& append(C const& es) { for(auto const& e:es) _pending.push_back(e); return *this; }
    void process() {
        auto ind=std::make_shared<Ariadne::ProgressIndicator>();
        Access access(*this);
        while(!_pending.empty()) {
            std::size_t i=Schedule::pick(_pending.size());
            E e=_pending[i]; _pending.erase(_pending.begin()+static_cast<std::ptrdiff_t>(i));
            _ack(e,ind);
            _f(access,e);
        }
    }
    std::size_t size() const { return _pending.size(); }
  private:
    Ack _ack; std::function<void(Access&,E const&)> _f; std::deque<E> _pending;
};
template<class E, class... AS> class StaticWorkload {
  public:
    template<class F> StaticWorkload(F f, AS... as)
        : _f([=](E const& e){ std::function<void(E const&,AS...)> g=f; g(e,as...); }) { }
    StaticWorkload& append(E const& e) { _pending.push_back(e); return *this; }
    template<class C> requires(!std::is_convertible_v<C,E>) StaticWorkload& append(C const& es) { for(auto const& e:es) _pending.push_back(e); return *this; }
    void process() {
        while(!_pending.empty()) {
            std::size_t i=Schedule::pick(_pending.size());
            E e=_pending[i]; _pending.erase(_pending.begin()+static_cast<std::ptrdiff_t>(i));
            _f(e);
        }
    }
    std::size_t size() const { return _pending.size(); }
  private:
    std::function<void(E const&)> _f; std::deque<E> _pending;
};
} // namespace BetterThreads
#endif
