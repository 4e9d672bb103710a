// Shared parts of the harnesses: case registry, symbolic input helpers and the
// stand-ins for what lies outside Bonmin (the user's problem, the NLP solver).
#ifndef COMMON_HPP
#define COMMON_HPP
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
struct SymCase { const char*name; void(*fn)(); SymCase*next; static SymCase*&head(){static SymCase*h=0;return h;} SymCase(const char*n,void(*f)()):name(n),fn(f){next=head();head()=this;} };
#define CASE(n) static void case_##n(); static SymCase reg_##n(#n,case_##n); static void case_##n()
static std::map<std::string,int> g_par;
static inline int par(const char*n,int def){ auto i=g_par.find(n); return i==g_par.end()?def:i->second; }
static inline const char* nm(const char*b,int i=-1,int j=-1){ char t[96]; if(i<0)snprintf(t,sizeof t,"%s",b); else if(j<0)snprintf(t,sizeof t,"%s%d",b,i); else snprintf(t,sizeof t,"%s%d_%d",b,i,j); return strdup(t); }
static inline double sd(const char*b,int i=-1,int j=-1,double lo=-8,double hi=8){ return sym_double(nm(b,i,j),lo,hi); }
static inline double sdr(const char*b,double lo,double hi,int i=-1,int j=-1){ return sym_double(nm(b,i,j),lo,hi); }
static inline int si(const char*b,int lo,int hi,int i=-1,int j=-1){ return sym_int(nm(b,i,j),lo,hi); }
static inline int sb(const char*b,int i=-1,int j=-1){ return sym_bool(nm(b,i,j)); }
static inline int sc(const char*b,int n,int i=-1,int j=-1){ return sym_choose(nm(b,i,j),n); }
#define A(c,w) sym_assert((c),(w))
static inline int same(double a,double b){ return a==b; }
int main(int argc,char**argv){
  if(argc<2){ for(SymCase*c=SymCase::head();c;c=c->next)printf("%s\n",c->name); return 2; }
  for(int i=2;i<argc;i++){ char*e=strchr(argv[i],'='); if(e){*e=0;g_par[argv[i]]=atoi(e+1);} }
  for(SymCase*c=SymCase::head();c;c=c->next) if(!strcmp(c->name,argv[1])){ c->fn(); sym_end(); return 0; }
  fprintf(stderr,"no such case\n"); return 2;
}
#endif
