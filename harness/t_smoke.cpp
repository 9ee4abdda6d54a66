// engine self test: library facilities a refactoring could bring in
#include "pc.h"
#include <map>
#include <set>
#include <list>
#include <vector>
#include <string.h>
#include <functional>
#include <memory>
extern "C" void h_map() { std::map<int,int> m; int n=(int)sx_range(4,"n"); for(int i=0;i<n;i++){int k=(int)sx_range(4,"k"); m[k]=i; if(sx_choose(2,"e")) m.erase((int)sx_range(4,"q"));} int last=-1; for(auto& p:m){CHECK(p.first>last); last=p.first; sx_observe(p.first);} for(auto it=m.end();it!=m.begin();){--it; sx_observe(it->second);} std::map<int,int> c(m); CHECK(c==m); }
extern "C" void h_set() { std::set<int> s{3,1,2,5,4}; s.erase((int)sx_range(7,"x")); s.erase((int)sx_range(7,"x")); int k=0; for(int x:s){k++; sx_observe(x);} CHECK(k==(int)s.size()); k=0; for(auto it=s.rbegin();it!=s.rend();++it) k++; CHECK(k==(int)s.size()); }
extern "C" void h_list() { std::list<int> l{1,2,3}, r{7}; l.splice(l.begin(), r); l.reverse(); l.remove(2); l.sort(); int k=0; for(int x:l){CHECK(x>k);k=x;sx_observe(x);} std::list<int> e; e.swap(l); CHECK(l.empty()&&e.size()==3); }
extern "C" void h_memchr() { char b[5]={1,2,3,4,5}; int c=(int)sx_range(8,"c"); const void* p=memchr(b,c,5); CHECK((p!=nullptr)==(c>=1&&c<=5)); }
extern "C" void h_fun() { int x=(int)sx_range(5,"x"); std::function<int(int)> f=[x](int y){return x+y;}; std::vector<std::function<int(int)>> v(3,f); CHECK(v[2](4)==x+4); }
extern "C" void h_shared() { auto p=std::make_shared<int>((int)sx_range(5,"x")); auto q=p; CHECK(*q<5); std::unique_ptr<int> u(new int(3)); p.reset(); CHECK(q.use_count()==1); }
