#include "num_enc.hpp"
VH_MAIN_SUPPORT
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed); long n=A.n;
    static const int ps[]={2,3,5,24,53,64,113,200};
    auto mp=[&](auto fn) { for(int k=0;k<8;++k) fn(MultiplePrecision(static_cast<mpfr_prec_t>(ps[k])),n/16); };
    run_dir<FloatDP>(r,dp,n/2); mp([&](MultiplePrecision p, long m){ run_dir<FloatMP>(r,p,m); });
}
