// Native definitions of the harness interface: replays recorded inputs against
// the ordinarily compiled code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
struct Case { std::map<std::string,std::uint64_t> set; std::map<std::string,std::string> in; };
static Case* cur; static std::map<std::string,int> occ; static bool failed;
struct AssumeFailed {};
static unsigned __int128 get(std::string n){ for(char& c:n) if(c==32) c=95; auto it=cur->in.find(n); if(it==cur->in.end()) return 0; unsigned __int128 v=0; for(char c:it->second) v=v*16+(c<='9'?c-'0':c-'a'+10); return v; }
extern "C" {
void sym_bytes(void* p, std::size_t n, const char* name){ int k=occ[name]++; for(std::size_t i=0;i<n;i++) static_cast<unsigned char*>(p)[i]=(unsigned char)get(std::string(name)+"#"+std::to_string(k)+"."+std::to_string(i)); }
std::uint64_t sym_value(unsigned w, const char* name){ (void)w; int k=occ[name]++; return (std::uint64_t)get(std::string(name)+"#"+std::to_string(k)); }
std::uint64_t sym_digit(std::uint64_t lo, std::uint64_t hi, const char* name){ if(lo==hi) return lo; std::string n=std::string(name)+"_"+std::to_string(lo)+"_"+std::to_string(hi); int k=occ[n]++; return (std::uint64_t)get(n+"#"+std::to_string(k)); }
void sym_assume(bool c){ if(!c) throw AssumeFailed{}; }
void sym_check(bool c, const char* msg){ if(!c){ failed=true; std::printf("CHECKFAIL %s\n",msg); std::fflush(stdout);} }
void sym_known(bool c, const char* msg){ sym_check(c,msg); }
void sym_trace(std::uint64_t v){ std::printf("T %llx\n",(unsigned long long)v); }
void sym_cover(const char*){}
std::uint64_t sym_config(const char* name, std::uint64_t d){ auto it=cur->set.find(name); return it==cur->set.end()?d:it->second; }
std::uint64_t sym_concretize(std::uint64_t v){ return v; }
bool sym_memeq(const void*a,const void*b,std::size_t n){ return n==0||std::memcmp(a,b,n)==0; }
}
int main(int argc,char**argv){
  std::ifstream f(argv[1]); std::string line; std::vector<Case> cases;
  while(std::getline(f,line)){ std::istringstream s(line); std::string k; s>>k; if(k=="case") cases.emplace_back(); else if(k=="set"){ std::string n; unsigned long long v; s>>n>>v; cases.back().set[n]=v; } else if(k=="in"){ std::string n,v; s>>n>>v; cases.back().in[n]=v; } }
  int ix=0; bool any=false; for(auto&c:cases){ cur=&c; occ.clear(); failed=false; std::printf("CASE %d\n",ix++); std::fflush(stdout);
    try { sym_main(); } catch(AssumeFailed&){ std::printf("ASSUME\n"); } any|=failed; std::printf("DONE\n"); std::fflush(stdout); }
  return any?1:0; }
