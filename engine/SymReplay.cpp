// Native (uninstrumented) implementation of sym.h: inputs come from the file
// named by SYM_REPLAY, assertions are evaluated concretely on the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string,uint64_t> in;
static double D(uint64_t v){double d;memcpy(&d,&v,8);return d;}
extern "C" {
void sym_snapshot(void){ const char*f=getenv("SYM_REPLAY"); FILE*fp=f?fopen(f,"r"):nullptr; if(!fp)return; static char l[1<<16]; while(fgets(l,sizeof l,fp)){ if(l[0]=='#')continue; char*q=strchr(l,'='); if(!q)continue; *q=0; in[l]=strtoull(q+1,nullptr,16);} fclose(fp); }
double sym_double(const char*n,double lo,double hi){ auto i=in.find(n); double v=i==in.end()?((lo<=0&&hi>=0)?0:lo):D(i->second); printf("  input %s = %.17g\n",n,v); return v; }
int sym_int(const char*n,int lo,int hi){ auto i=in.find(n); int v=i==in.end()?((lo<=0&&hi>=0)?0:lo):(int)(uint32_t)i->second; printf("  input %s = %d\n",n,v); return v; }
int sym_bool(const char*n){ auto i=in.find(n); int v=i==in.end()?0:(int)(i->second&1); printf("  input %s = %d\n",n,v); return v; }
int sym_choose(const char*n,int k){ auto i=in.find(n); int v=i==in.end()?0:(int)(uint32_t)i->second; printf("  input %s = %d\n",n,v); return v; }
void sym_assume(int c){ if(!c){ printf("REPLAY-ASSUME-FAILED\n"); fflush(stdout); _exit(4);} }
void sym_assert(int c,const char*w){ if(!c){ printf("REPLAY-VIOLATION %s\n",w); fflush(stdout); _exit(1);} }
void sym_reach(const char*){}
int sym_fork_int(int v){return v;} double sym_fork_double(double v){return v;}
void sym_grid(int){} void sym_end(void){ printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
int sym_native(void){return 1;} void sym_note(const char*k,double v){ printf("  %s = %.17g\n",k,v); fflush(stdout); }
int sym_and(int a,int b){return a&&b;} int sym_or(int a,int b){return a||b;} int sym_not(int a){return !a;} int sym_implies(int a,int b){return !a||b;}
}
