// The least-recently-used cache and the containers of utility/: histories of operations, observed completely.
#include "vh.hpp"
#include "utility/container.hpp"
#include "utility/array.hpp"
#include "utility/lru_cache.hpp"
#include "utility/binary_word.hpp"
VH_MAIN_SUPPORT
using namespace Ariadne; using namespace vh;
typedef LRUCache<int,std::string> Cache;
static const int KEYS=5;
static J obs(Cache& c) { std::vector<J> v; for(int k=0;k<KEYS;++k) v.push_back(c.has_label(k)?J(static_cast<long>(c.age(k))):J(-1)); return J(v); }
static void step(Cache& c, int op, int k, int& val) {
    std::string r; const char* f="";
    try { switch(op) { 
        case 0: f="put"; c.put(k,std::to_string(++val)); r="ok"; break;
        case 1: f="get"; r=c.get(k); break;
        case 2: f="age"; r=std::to_string(c.age(k)); break;
        default: f="has"; r=c.has_label(k)?"T":"F"; } }
    catch(std::exception const&) { r="exc"; }
    Ev("lru")("f",f)("k",k+1)("v",std::to_string(val))("r",r)("o",obs(c))("n",static_cast<long>(c.current_size()))("m",static_cast<long>(c.maximum_size())).emit(); }
static void lru_new(unsigned cap) { Ev("lru")("f","new")("k",static_cast<int>(cap))("v","")("r","")("o",std::vector<int>(KEYS,-1))("n",0)("m",static_cast<int>(cap)).emit(); }
// every history of the given length over put/get of three keys
static void lru_all(unsigned cap, int len) { long tot=1; for(int i=0;i<len;++i) tot*=6; 
    for(long h=0;h<tot;++h) { Cache c(cap); int val=0; lru_new(cap); long x=h; for(int i=0;i<len;++i,x/=6) step(c,static_cast<int>(x%2),static_cast<int>((x/2)%3),val); } }
static void lru_rand(Rng& r, long n) { for(long i=0;i<n;++i) { unsigned cap=static_cast<unsigned>(r.range(1,5)); Cache c(cap); int val=0; lru_new(cap); long m=r.range(5,40); for(long j=0;j<m;++j) step(c,static_cast<int>(r.below(5)<2?0:r.below(4)),static_cast<int>(r.below(KEYS)),val); } }
typedef std::vector<int> V;
template<class C> static V vec(C const& c) { V v; for(auto const& x:c) v.push_back(static_cast<int>(x)); return v; }
static V mkv(Rng& r, int n) { V v; long m=r.range(0,n); for(long i=0;i<m;++i) v.push_back(static_cast<int>(r.range(0,6))); return v; }
static void rec(const char* f, V a, V b, int k, V res) { Ev("con")("f",f)("a",a)("b",b)("k",k)("r",res).emit(); }
static V b1(bool b) { return V{b?1:0}; }
static void containers(Rng& r) {
    V va=mkv(r,5), vb=mkv(r,5); int k=static_cast<int>(r.range(0,6)); Set<int> a(va), b(vb); List<int> la(va), lb(vb);
    V sa=vec(a), sb=vec(b);
    switch(r.below(30)) {
        case 0: { Set<int> c=a; c.adjoin(b); rec("union",sa,sb,k,vec(c)); rec("union",sa,sb,k,vec(join(a,b))); break; }
        case 1: { Set<int> c=a; c.remove(b); rec("minus",sa,sb,k,vec(c)); rec("minus",sa,sb,k,vec(difference(a,b))); break; }
        case 2: { Set<int> c=a; c.restrict(b); rec("inter",sa,sb,k,vec(c)); rec("inter",sa,sb,k,vec(intersection(a,b))); rec("inter",sa,vb,k,vec(intersection(a,vb))); break; }
        case 3: { Set<int> c=a; remove(c,b); rec("minus",sa,sb,k,vec(c)); Set<int> d=a; restrict(d,b); rec("inter",sa,sb,k,vec(d)); break; }
        case 4: { Set<int> c=a; c.remove(k); rec("without",sa,sb,k,vec(c)); Set<int> d=a; d.remove(vb); rec("minus",sa,vb,k,vec(d)); break; }
        case 5: rec("subset",sa,sb,k,b1(subset(a,b))); rec("subset",sa,sb,k,b1(a.subset(b))); break;
        case 6: rec("disjoint",sa,sb,k,b1(disjoint(a,b))); rec("disjoint",sa,sb,k,b1(a.disjoint(b))); rec("disjoint",sa,vb,k,b1(disjoint(a,vb))); rec("disjoint",sa,vb,k,b1(a.disjoint(vb))); break;
        case 7: rec("in",sa,sb,k,b1(contains(a,k))); rec("in",sa,sb,k,b1(a.contains(k))); break;
        case 8: { List<int> c=la; c.append(lb); rec("cat",va,vb,k,vec(c)); List<int> d=la; d.concatenate(lb); rec("cat",va,vb,k,vec(d)); rec("cat",va,vb,k,vec(catenate(la,lb))); break; }
        case 9: { List<int> c=la; c.append(k); rec("push",va,vb,k,vec(c)); rec("push",va,vb,k,vec(catenate(la,k))); break; }
        case 10: rec("unique",va,vb,k,b1(unique_elements(va))); rec("dups",va,vb,k,vec(duplicate_elements(va))); break;
        case 11: rec("set",va,vb,k,vec(make_set(va))); rec("set",va,vb,k,vec(make_list(a))); rec("set",va,vb,k,vec(List<int>(a))); break;
        case 12: case 13: case 14: { // maps: keys va, values are positions
            Map<int,int> m, n; std::vector<J> M,N; auto pairs=[](Map<int,int> const& x) { V v; for(auto const& y:x) { v.push_back(y.first); v.push_back(y.second); } return v; };
            for(std::size_t i=0;i<va.size();++i) { V old=pairs(m); if(r.chance(1,2)) { m.insert(va[i],static_cast<int>(i)); rec("minsert",old,V{static_cast<int>(i)},va[i],pairs(m)); } else { m[va[i]]=static_cast<int>(i)+10; rec("mset",old,V{static_cast<int>(i)+10},va[i],pairs(m)); } }
            for(std::size_t i=0;i<vb.size();++i) n[vb[i]]=static_cast<int>(i)+20;
            V pm=pairs(m), pn=pairs(n);
            Map<int,int> mc=m; mc[k]=99; rec("mset",pm,V{99},k,pairs(mc)); rec("msame",pm,pm,k,pairs(m)); 
            rec("mjoin",pm,pn,k,pairs(join(m,n))); { Map<int,int> c=m; c.adjoin(n); rec("mjoin",pm,pn,k,pairs(c)); }
            rec("mrestrict",pm,sb,k,pairs(restrict_keys(m,b))); { Map<int,int> c=m; c.remove_keys(b); rec("mremove",pm,sb,k,pairs(c)); }
            rec("mkeys",pm,sb,k,vec(m.keys())); rec("mvalues",pm,sb,k,vec(m.values())); rec("mhas",pm,sb,k,b1(m.has_key(k)));
            V g; try { g.push_back(m.get(k)); } catch(std::exception const&) {} rec("mget",pm,sb,k,g); g.clear(); try { g.push_back(m.value(k)); } catch(std::exception const&) {} rec("mget",pm,sb,k,g); 
            g.clear(); try { Map<int,int> const& cm=m; g.push_back(cm[k]); } catch(std::exception const&) {} rec("mget",pm,sb,k,g); break; }
        case 15: case 16: { Array<Integer> x(va.begin(),va.end()); auto W=[](Array<Integer> const& y) { V v; for(auto const& z:y) v.push_back(static_cast<int>(z.get_si())); return v; };
            Array<Integer> y(x); if(y.size()>0) y[r.below(y.size())]=99; rec("asame",va,vb,k,W(x)); unsigned n=static_cast<unsigned>(r.below(8)); 
            Array<Integer> z=x; z.resize(n); rec("aresize",va,V{0},static_cast<int>(n),W(z)); z=x; z.resize(n,Integer(7)); rec("aresize",va,V{7},static_cast<int>(n),W(z));
            z=x; Array<Integer> w(vb.begin(),vb.end()); z=w; rec("asame",vb,va,k,W(z)); z=x; z.swap(w); rec("asame",vb,va,k,W(z)); rec("asame",va,vb,k,W(w)); z=x; z.fill(Integer(3)); rec("afill",va,V{3},k,W(z)); 
            z=std::move(x); rec("asame",va,vb,k,W(z)); Array<Integer> u(vb.begin(),vb.end()); rec("aeq",va,vb,k,b1(z==u)); rec("ane",va,vb,k,b1(z!=u)); z.assign(vb.begin(),vb.end()); rec("asame",vb,va,k,W(z));
            V o; try { o.push_back(static_cast<int>(z.at(static_cast<std::size_t>(k)).get_si())); } catch(std::exception const&) {} rec("aat",vb,va,k,o); 
            Array<Integer> g(n,[](SizeType i){ return Integer(static_cast<int>(i)*2); }); rec("agen",V{},V{},static_cast<int>(n),W(g)); break; }
        default: { // binary words
            V wa,wb; for(int i=0;i<static_cast<int>(r.range(0,7));++i) wa.push_back(static_cast<int>(r.below(2))); if(r.chance(1,2)) { wb=wa; for(int i=0;i<static_cast<int>(r.range(0,3));++i) wb.insert(wb.begin()+static_cast<long>(r.below(wb.size()+1)),static_cast<int>(r.below(2))); } else for(int i=0;i<static_cast<int>(r.range(0,9));++i) wb.push_back(static_cast<int>(r.below(2)));
            auto mk=[](V const& v) { BinaryWord w; for(int x:v) w.append(x!=0); return w; }; BinaryWord x=mk(wa), y=mk(wb);
            rec("wprefix",wa,wb,0,b1(x.is_prefix(y))); rec("wsub",wa,wb,0,b1(x.is_subword(y))); rec("wlt",wa,wb,0,b1(x<y)); { BinaryWord z=x; z.append(y); rec("cat",wa,wb,0,vec(z)); } { BinaryWord z=x; int n=static_cast<int>(r.range(0,8)); z.erase_prefix(n); rec("wdrop",wa,wb,n,vec(z)); }
            if(!wa.empty()) { BinaryWord z=x; bool bt=r.chance(1,2); z.set_back(bt); rec("wback",wa,b1(bt),0,vec(z)); std::stringstream ss; ss<<x; rec("asame",wa,wb,0,vec(BinaryWord(ss.str()))); } break; }
    }
}
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    unsigned k=static_cast<unsigned>(A.seed%1000); if(k<3) lru_all(k+1,A.mode=="deep"?6:4);
    lru_rand(r,A.n/40); for(long i=0;i<A.n;++i) containers(r);
}
