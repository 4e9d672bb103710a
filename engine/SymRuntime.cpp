#include <array>
// Runtime of the symbolic execution engine: expressions, shadow memory, path
// constraints, SMT queries (Z3), and the fork server that explores paths.
#include "sym.h"
#include <z3++.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cfloat>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <malloc.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <execinfo.h>
#include <fcntl.h>
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;

extern "C" { u32 __sym_args[32]; u64 __sym_argv[32]; u32 __sym_argw[32]; void* __sym_callee; u32 __sym_ret; void* __sym_retfn; }

static bool g_active=false; // inside a path (after the snapshot)
enum Kind:u8{K_BOOL,K_BV,K_REAL};
enum Op:u8{O_CONST,O_VAR,O_NOT,O_AND,O_OR,O_XOR,O_EQ,O_ULT,O_ULE,O_SLT,O_SLE,O_ADD,O_SUB,O_MUL,O_SDIV,O_UDIV,O_SREM,O_UREM,O_SHL,O_LSHR,O_ASHR,O_BAND,O_BOR,O_BXOR,O_ZEXT,O_SEXT,O_EXTRACT,O_CONCAT,O_B2BV,O_ITE,
  O_RADD,O_RSUB,O_RMUL,O_RDIV,O_RNEG,O_RLT,O_RLE,O_REQ,O_FLOOR,O_SQRT};
struct Bits{ u64 w[4]={0,0,0,0}; bool meets(const Bits&o)const{return (w[0]&o.w[0])|(w[1]&o.w[1])|(w[2]&o.w[2])|(w[3]&o.w[3]);} void add(const Bits&o){for(int i=0;i<4;i++)w[i]|=o.w[i];} void set(int i){w[i>>6]|=1ull<<(i&63);} bool has(int i)const{return w[i>>6]>>(i&63)&1;} bool sub(const Bits&o)const{for(int i=0;i<4;i++)if(w[i]&~o.w[i])return false;return true;} };
struct Expr{ Op op; Kind kind; uint16_t w; u32 a,b,c; u64 k; u64 cv; double lo,hi; Bits vars; u8 nl, fl; };
static std::vector<Expr> E(1);
struct Key{u64 a,b,c; bool operator==(const Key&o)const{return a==o.a&&b==o.b&&c==o.c;}};
struct KeyH{size_t operator()(const Key&k)const{return k.a*0x9E3779B97F4A7C15ull^(k.b*0xC2B2AE3D27D4EB4Full+(k.c<<17)^(k.c>>13));}};
static std::unordered_map<Key,u32,KeyH> cons_tab;
static double D(u64 v){double d;memcpy(&d,&v,8);return d;} static u64 U(double d){u64 v;memcpy(&v,&d,8);return v;}
static u64 mask(int w){return w>=64?~0ull:((1ull<<w)-1);} static int64_t sx(u64 v,int w){ if(w>=64)return (int64_t)v; u64 m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m);}

struct Var{std::string name;Kind kind;int w;double lo,hi;int64_t ilo,ihi;u64 val;u32 expr;};
static std::vector<Var> V;
static std::map<std::string,u64> g_input; static int g_grid=10;
static FILE*g_out=nullptr;
// statistics
static u64 st_q=0,st_sat=0,st_unsat=0,st_unk=0,st_entries=0,st_assertq=0,st_gridprune=0; static double st_t=0;
static std::set<void*> g_sites; static std::unordered_set<void*> g_instr; struct FE{void*p;const char*n;}; static std::vector<FE> g_funcs;
static std::set<std::string> g_concfn;
static void*g_sitec[8192]; static inline void note_site(void*p){ size_t h=((size_t)p>>1)&8191; if(g_sitec[h]!=p){ g_sitec[h]=p; g_sites.insert(p); } }
#define SITE() note_site(__builtin_return_address(0))

static u32 mk(Op op,Kind kind,int w,u32 a,u32 b,u32 c,u64 k,u64 cv){
  Key key{((u64)op<<56)|((u64)kind<<48)|((u64)w<<32)|a,((u64)b<<32)|c,k};
  auto it=cons_tab.find(key); if(it!=cons_tab.end())return it->second;
  Expr e; memset(&e,0,sizeof e); e.op=op;e.kind=kind;e.w=(uint16_t)w;e.a=a;e.b=b;e.c=c;e.k=k;e.cv=cv;
  if(kind==K_BV)e.cv&=mask(w);
  if(a){e.vars.add(E[a].vars);e.nl|=E[a].nl;e.fl|=E[a].fl;} if(b){e.vars.add(E[b].vars);e.nl|=E[b].nl;e.fl|=E[b].fl;} if(c){e.vars.add(E[c].vars);e.nl|=E[c].nl;e.fl|=E[c].fl;}
  if(op==O_RMUL&&E[a].op!=O_CONST&&E[b].op!=O_CONST)e.nl|=1; if(op==O_RDIV&&E[b].op!=O_CONST)e.nl|=1; if(op==O_FLOOR)e.nl|=2; if(op==O_SQRT)e.nl|=1;
  if(kind==K_BV)e.fl|=1;
  if(kind==K_REAL){
    auto&A=E[a];auto&B=E[b]; double lo=-INFINITY,hi=INFINITY;
    switch(op){
    case O_CONST: lo=hi=D(k);break;
    case O_RADD: lo=A.lo+B.lo;hi=A.hi+B.hi;break; case O_RSUB: lo=A.lo-B.hi;hi=A.hi-B.lo;break; case O_RNEG: lo=-A.hi;hi=-A.lo;break;
    case O_RMUL:{double p[4]={A.lo*B.lo,A.lo*B.hi,A.hi*B.lo,A.hi*B.hi};lo=*std::min_element(p,p+4);hi=*std::max_element(p,p+4);bool n=false;for(double x:p)if(std::isnan(x))n=true;if(n){lo=-INFINITY;hi=INFINITY;}if(a==b&&lo<0)lo=0;break;}
    case O_RDIV: if(B.lo>0||B.hi<0){double p[4]={A.lo/B.lo,A.lo/B.hi,A.hi/B.lo,A.hi/B.hi};lo=*std::min_element(p,p+4);hi=*std::max_element(p,p+4);}break;
    case O_FLOOR: lo=std::floor(A.lo);hi=std::floor(A.hi);break;
    case O_SQRT: lo=A.lo>0?std::sqrt(A.lo):0;hi=A.hi>0?std::sqrt(A.hi):0;break;
    case O_ITE: lo=std::min(E[b].lo,E[c].lo);hi=std::max(E[b].hi,E[c].hi);break;
    default:break;}
    if(op!=O_CONST&&op!=O_VAR){ // outward slack for double rounding of the bounds
      if(std::isfinite(lo))lo-=std::fabs(lo)*1e-12+1e-300; if(std::isfinite(hi))hi+=std::fabs(hi)*1e-12+1e-300; if(std::isnan(lo))lo=-INFINITY; if(std::isnan(hi))hi=INFINITY; }
    e.lo=lo;e.hi=hi;
  }
  E.push_back(e); u32 id=(u32)E.size()-1; cons_tab[key]=id; return id;
}
static u32 kReal(double d){ if(d==0)d=0; return mk(O_CONST,K_REAL,64,0,0,0,U(d),U(d)); }
static u32 kBV(u64 v,int w){v&=mask(w);return mk(O_CONST,K_BV,w,0,0,0,v,v);}
static u32 kBool(bool b){return mk(O_CONST,K_BOOL,1,0,0,0,b,b);}
static bool isC(u32 e){return E[e].op==O_CONST;}
static u32 mkNot(u32 a){ if(E[a].op==O_NOT)return E[a].a; if(isC(a))return kBool(!E[a].cv); return mk(O_NOT,K_BOOL,1,a,0,0,0,!E[a].cv);}
static u32 mkAnd(u32 a,u32 b){ if(isC(a))return E[a].cv?b:a; if(isC(b))return E[b].cv?a:b; if(a==b)return a; return mk(O_AND,K_BOOL,1,a,b,0,0,E[a].cv&&E[b].cv);}
static u32 mkOr(u32 a,u32 b){ if(isC(a))return E[a].cv?a:b; if(isC(b))return E[b].cv?b:a; if(a==b)return a; return mk(O_OR,K_BOOL,1,a,b,0,0,E[a].cv||E[b].cv);}
static u32 mkEqBV(u32 a,u32 b){ return mk(O_EQ,K_BOOL,1,a,b,0,0,E[a].cv==E[b].cv);}

// ---------------------------------------------------------------- evaluation
static u64 evalE(u32 id,const std::vector<u64>&val,std::unordered_map<u32,u64>&memo){
  const Expr e=E[id]; if(e.op==O_CONST)return e.k; if(e.op==O_VAR)return val[e.k];
  auto it=memo.find(id); if(it!=memo.end())return it->second;
  u64 a=e.a?evalE(e.a,val,memo):0,b=e.b?evalE(e.b,val,memo):0,c=e.c?evalE(e.c,val,memo):0,r=0; int w=e.a?E[e.a].w:e.w;
  switch(e.op){
  case O_NOT:r=!a;break;case O_AND:r=a&&b;break;case O_OR:r=a||b;break;case O_XOR:r=(a!=0)!=(b!=0);break;
  case O_EQ:r=a==b;break;case O_ULT:r=a<b;break;case O_ULE:r=a<=b;break;case O_SLT:r=sx(a,w)<sx(b,w);break;case O_SLE:r=sx(a,w)<=sx(b,w);break;
  case O_ADD:r=a+b;break;case O_SUB:r=a-b;break;case O_MUL:r=a*b;break;
  case O_SDIV:r=sx(b,w)?(u64)(sx(a,w)/sx(b,w)):0;break;case O_UDIV:r=b?a/b:0;break;case O_SREM:r=sx(b,w)?(u64)(sx(a,w)%sx(b,w)):0;break;case O_UREM:r=b?a%b:0;break;
  case O_SHL:r=b<64?a<<b:0;break;case O_LSHR:r=b<64?a>>b:0;break;case O_ASHR:r=(u64)(sx(a,w)>>(b<63?b:63));break;
  case O_BAND:r=a&b;break;case O_BOR:r=a|b;break;case O_BXOR:r=a^b;break;
  case O_ZEXT:r=a;break;case O_SEXT:r=(u64)sx(a,w);break;case O_EXTRACT:r=a>>e.k;break;case O_CONCAT:r=(a<<E[e.b].w)|b;break;
  case O_B2BV:r=a?1:0;break;case O_ITE:r=a?b:c;break;
  case O_RADD:r=U(D(a)+D(b));break;case O_RSUB:r=U(D(a)-D(b));break;case O_RMUL:r=U(D(a)*D(b));break;case O_RDIV:r=U(D(a)/D(b));break;case O_RNEG:r=U(-D(a));break;
  case O_RLT:r=D(a)<D(b);break;case O_RLE:r=D(a)<=D(b);break;case O_REQ:r=D(a)==D(b);break;case O_FLOOR:r=U(std::floor(D(a)));break;case O_SQRT:r=U(std::sqrt(D(a)));break;
  default:break;}
  if(e.kind==K_BV)r&=mask(e.w); memo[id]=r; return r;
}

// ---------------------------------------------------------------- Z3
static z3::context*Z=nullptr; static std::unordered_map<u32,z3::expr>*zm=nullptr; static std::vector<z3::expr>*zsidecond=nullptr;
static std::string ratStr(double d){ // exact rational
  if(d==std::floor(d)){ char b[400]; snprintf(b,sizeof b,"%.0f",d); return b; }
  int k=0; double m=d; while(m!=std::floor(m)){m*=2;k++; if(k>1074)break;}
  char n[400]; snprintf(n,sizeof n,"%.0f",m);
  if(k<=1000){ char q[400]; snprintf(q,sizeof q,"%.0f",std::ldexp(1.0,k)); return std::string(n)+"/"+q; }
  return "0";
}
static z3::expr toZ(u32 id){
  auto it=zm->find(id); if(it!=zm->end())return it->second;
  const Expr e=E[id]; z3::context&c=*Z; z3::expr r(c);
  auto A=[&]{return toZ(e.a);};auto B=[&]{return toZ(e.b);};auto Cc=[&]{return toZ(e.c);};
  switch(e.op){
  case O_CONST: r= e.kind==K_BOOL?c.bool_val(e.k!=0):e.kind==K_BV?c.bv_val((uint64_t)e.k,e.w):c.real_val(ratStr(D(e.k)).c_str());break;
  case O_VAR:{auto&v=V[e.k]; r= v.kind==K_BOOL?c.bool_const(v.name.c_str()):v.kind==K_BV?c.bv_const(v.name.c_str(),v.w):c.real_const(v.name.c_str());break;}
  case O_NOT:r=!A();break;case O_AND:r=A()&&B();break;case O_OR:r=A()||B();break;case O_XOR:r=A()!=B();break;
  case O_EQ:r=A()==B();break;case O_ULT:r=z3::ult(A(),B());break;case O_ULE:r=z3::ule(A(),B());break;case O_SLT:r=z3::slt(A(),B());break;case O_SLE:r=z3::sle(A(),B());break;
  case O_ADD:r=A()+B();break;case O_SUB:r=A()-B();break;case O_MUL:r=A()*B();break;case O_SDIV:r=A()/B();break;case O_UDIV:r=z3::udiv(A(),B());break;case O_SREM:r=z3::srem(A(),B());break;case O_UREM:r=z3::urem(A(),B());break;
  case O_SHL:r=z3::shl(A(),B());break;case O_LSHR:r=z3::lshr(A(),B());break;case O_ASHR:r=z3::ashr(A(),B());break;
  case O_BAND:r=A()&B();break;case O_BOR:r=A()|B();break;case O_BXOR:r=A()^B();break;
  case O_ZEXT:r=z3::zext(A(),e.w-E[e.a].w);break;case O_SEXT:r=z3::sext(A(),e.w-E[e.a].w);break;case O_EXTRACT:r=A().extract((unsigned)e.k+e.w-1,(unsigned)e.k);break;case O_CONCAT:r=z3::concat(A(),B());break;
  case O_B2BV:r=z3::ite(A(),c.bv_val(1,e.w),c.bv_val(0,e.w));break;case O_ITE:r=z3::ite(A(),B(),Cc());break;
  case O_RADD:r=A()+B();break;case O_RSUB:r=A()-B();break;case O_RMUL:r=A()*B();break;case O_RDIV:r=A()/B();break;case O_RNEG:r=-A();break;
  case O_RLT:r=A()<B();break;case O_RLE:r=A()<=B();break;case O_REQ:r=A()==B();break;
  case O_FLOOR:{ z3::expr x=A(); r=z3::to_real(z3::expr(c,Z3_mk_real2int(c,x)));break;}
  case O_SQRT:{ z3::expr x=A(); std::string n="sqrt!"+std::to_string(id); r=c.real_const(n.c_str()); zsidecond->push_back(r>=0&&r*r==x); break;}
  }
  zm->emplace(id,r); return r;
}
static std::vector<u32> PC; // path constraints (bool exprs that hold)
static int g_qtimeout=20000;
enum Res{UNSAT,SAT,UNK};
static double now(){struct timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
static void domain(z3::solver&s,int i){ auto&v=V[i]; z3::expr x=toZ(v.expr); if(v.kind==K_REAL){ s.add(x>=Z->real_val(ratStr(v.lo).c_str())); s.add(x<=Z->real_val(ratStr(v.hi).c_str())); } else if(v.kind==K_BV){ s.add(z3::sle(Z->bv_val((int64_t)v.ilo,v.w),x)); s.add(z3::sle(x,Z->bv_val((int64_t)v.ihi,v.w))); } }
static bool valid_assign(const std::vector<u32>&cs,const std::vector<u64>&val){ std::unordered_map<u32,u64> memo; for(u32 c:cs) if(!evalE(c,val,memo))return false; for(size_t i=0;i<V.size();i++){ if(V[i].kind==K_REAL&&!(D(val[i])>=V[i].lo&&D(val[i])<=V[i].hi))return false; } return true; }
static bool get_model(z3::model&m,const Bits&vars,std::vector<u64>&val,bool snap){
  for(size_t i=0;i<V.size();i++) if(vars.has((int)i)){
    z3::expr x=m.eval(toZ(V[i].expr),true);
    if(V[i].kind==K_BOOL)val[i]=x.is_true();
    else if(V[i].kind==K_BV){ uint64_t u=0; if(!x.is_numeral_u64(u))return false; val[i]=u; }
    else{ double d=0; if(x.is_numeral()) d=strtod(x.get_decimal_string(25).c_str(),nullptr); else if(x.is_algebraic()){ z3::expr l(*Z,Z3_get_algebraic_number_lower(*Z,x,60)); d=strtod(l.get_decimal_string(25).c_str(),nullptr);} else return false; if(snap)d=std::ldexp(std::nearbyint(std::ldexp(d,g_grid)),-g_grid); if(d==0)d=0; val[i]=U(d); }
  }
  return true;
}
static z3::check_result zcheck(z3::solver&s){ double t=now(); z3::check_result r; try{ r=s.check(); }catch(z3::exception&e){ r=z3::unknown; } st_t+=now()-t; return r; }
// Linear abstraction: constraints in sum-of-monomials form with every nonlinear
// monomial read as an unconstrained variable.  Unsatisfiable here implies
// unsatisfiable; anything else goes on to the nonlinear solvers.
struct LinAbs{ std::vector<std::array<z3::expr,3>> two; z3::expr_vector from,to; std::map<unsigned,z3::expr> memo; std::map<std::vector<unsigned>,z3::expr> mono; z3::params sp; LinAbs():from(*Z),to(*Z),sp(*Z){ sp.set("som",true); sp.set("flat",true); }
  z3::expr walk(const z3::expr&e){ auto it=memo.find(e.id()); if(it!=memo.end())return it->second; z3::expr r=e;
    if(e.is_app()&&e.num_args()>0){ z3::expr_vector a(*Z); for(unsigned i=0;i<e.num_args();i++)a.push_back(walk(e.arg(i)));
      if(e.decl().decl_kind()==Z3_OP_MUL){ std::vector<unsigned> ks; z3::expr c=Z->real_val(1); int nv=0; z3::expr one=c; for(unsigned i=0;i<a.size();i++){ if(a[i].is_numeral())c=c*a[i]; else {nv++;one=a[i];ks.push_back(a[i].id());from.push_back(a[i]);} } if(nv<=1)r=c*one; else{ std::sort(ks.begin(),ks.end()); auto m=mono.find(ks); if(m==mono.end()){ z3::expr f=Z->real_const(("mono!"+std::to_string(mono.size())).c_str()); m=mono.emplace(ks,f).first; if(nv==2){ std::vector<z3::expr> g; for(unsigned i=0;i<a.size();i++)if(!a[i].is_numeral())g.push_back(a[i]); two.push_back({f,g[0],g[1]}); } } r=c*m->second; } }
      else if(e.decl().decl_kind()==Z3_OP_POWER){ r=Z->real_const(("pow!"+std::to_string(e.id())).c_str()); from.push_back(e); }
      else r=e.decl()(a); }
    memo.emplace(e.id(),r); to.push_back(e); return r; }
  z3::expr operator()(const z3::expr&e){ return walk(e.simplify(sp)); }
  // sound facts about the products: signs, and monotonicity of products sharing a factor
  void lemmas(z3::solver&s){ std::map<unsigned,double> B; for(auto&v:V)if(v.kind==K_REAL)B[toZ(v.expr).id()]=std::max(std::fabs(v.lo),std::fabs(v.hi));
    for(auto&t:two)for(int p=1;p<3;p++){ auto it=B.find(t[p].id()); if(it==B.end()||it->second>1e15)continue; z3::expr k=Z->real_val(ratStr(it->second).c_str()),m=t[0],a=t[3-p]; s.add(z3::implies(a>=0,m<=k*a&&m>=-k*a)); s.add(z3::implies(a<=0,m>=k*a&&m<=-k*a)); }
    for(auto&t:two){ z3::expr&m=t[0],&a=t[1],&b=t[2]; s.add(z3::implies((a>=0&&b>=0)||(a<=0&&b<=0),m>=0)); s.add(z3::implies((a>=0&&b<=0)||(a<=0&&b>=0),m<=0)); s.add(z3::implies(a==0||b==0,m==0)); }
    for(size_t i=0;i<two.size();i++)for(size_t j=i+1;j<two.size();j++)for(int p=1;p<3;p++)for(int q=1;q<3;q++) if(two[i][p].id()==two[j][q].id()){ z3::expr v=two[i][p],a=two[i][3-p],b=two[j][3-q],m=two[i][0],n=two[j][0]; s.add(z3::implies((v>=0&&a>=b)||(v<=0&&a<=b),m>=n)); s.add(z3::implies((v>=0&&a<=b)||(v<=0&&a>=b),m<=n)); } } };
static Res query(u32 goal,std::vector<u64>*out){
  // slice
  std::vector<u32> cs; cs.push_back(goal); Bits vs=E[goal].vars; std::vector<char> in(PC.size(),0); bool ch=true;
  while(ch){ch=false; for(size_t i=0;i<PC.size();i++) if(!in[i]&&E[PC[i]].vars.meets(vs)){in[i]=1;cs.push_back(PC[i]);if(!E[PC[i]].vars.sub(vs)){vs.add(E[PC[i]].vars);ch=true;}}}
  u8 nl=0,fl=0; for(u32 c:cs){nl|=E[c].nl;fl|=E[c].fl;}
  st_q++;
  std::vector<u64> base(V.size()); for(size_t i=0;i<V.size();i++)base[i]=V[i].val;
  try{
  auto build=[&](z3::solver&s,int to){ z3::params p(*Z); p.set("timeout",(unsigned)to); s.set(p); zsidecond->clear(); std::vector<z3::expr> zs; for(u32 c:cs)zs.push_back(toZ(c)); for(auto&x:zs)s.add(x); for(size_t i=0;i<V.size();i++)if(vs.has((int)i))domain(s,(int)i); for(auto&x:*zsidecond)s.add(x); };
  z3::check_result r=z3::unknown; bool usedNl=false;
  z3::solver s1(*Z); z3::solver s2 = ((nl&1)&&!(nl&2)&&!(fl&1))?z3::solver(*Z,"QF_NRA"):z3::solver(*Z);
  if(nl&1){ z3::solver s0(*Z); z3::params p(*Z); p.set("timeout",(unsigned)2000); s0.set(p); LinAbs ab; zsidecond->clear(); std::vector<z3::expr> zs; for(u32 c:cs)zs.push_back(toZ(c)); for(auto&x:zs)s0.add(ab(x)); for(size_t i=0;i<V.size();i++)if(vs.has((int)i))domain(s0,(int)i); if(zcheck(s0)==z3::unsat){st_unsat++;return UNSAT;} if(ab.two.size()<=40){ ab.lemmas(s0); if(zcheck(s0)==z3::unsat){st_unsat++;return UNSAT;} } }
  if((nl&1)&&!(nl&2)&&!(fl&1)){ build(s2,g_qtimeout); r=zcheck(s2); usedNl=true; }
  if(r==z3::unknown){ build(s1,g_qtimeout); r=zcheck(s1); usedNl=false; }
  if(r==z3::unsat){st_unsat++;return UNSAT;}
  if(r==z3::unknown){ if(getenv("SYM_DUMP")){ std::string q; z3::solver d(*Z); build(d,1000); q=d.to_smt2(); fprintf(stderr,"UNKQ\n%s\n",q.c_str()); } st_unk++;return UNK;}
  z3::solver&s=usedNl?s2:s1;
  if(!out){st_sat++;return SAT;}
  std::vector<u64> val=base; z3::model m=s.get_model();
  for(int snap=1;snap>=0;snap--){ val=base; if(get_model(m,vs,val,snap)&&valid_assign(cs,val)){ if(snap){*out=val;st_sat++;return SAT;} } }
  // greedy rounding: fix the real variables one at a time on the grid
  {
    z3::solver g=(usedNl?z3::solver(*Z,"QF_NRA"):z3::solver(*Z)); build(g,4000); z3::model cur=m; bool ok=true;
    for(size_t i=0;i<V.size()&&ok;i++) if(vs.has((int)i)&&V[i].kind==K_REAL){
      std::vector<u64> t=base; Bits one; one.set((int)i); if(!get_model(cur,one,t,true)){ok=false;break;}
      double d=D(t[i]); double st=std::ldexp(1.0,-g_grid); double cand[]={d,d+st,d-st,std::floor(d),std::ceil(d),d+0.5,d-0.5,D(base[i]),0,1,-1}; bool done=false;
      for(double x:cand){ if(x<V[i].lo||x>V[i].hi)continue; g.push(); g.add(toZ(V[i].expr)==Z->real_val(ratStr(x).c_str())); if(zcheck(g)==z3::sat){cur=g.get_model();done=true;break;} g.pop(); }
      (void)done;
    }
    if(ok){ val=base; if(get_model(cur,vs,val,true)&&valid_assign(cs,val)){*out=val;st_sat++;return SAT;} }
  }
  // exact grid (mixed integer)
  {
    z3::solver g(*Z); build(g,g_qtimeout); std::vector<z3::expr> ks;
    for(size_t i=0;i<V.size();i++) if(vs.has((int)i)&&V[i].kind==K_REAL){ z3::expr k=Z->int_const(("grid!"+V[i].name).c_str()); g.add(toZ(V[i].expr)*Z->real_val(ratStr(std::ldexp(1.0,g_grid)).c_str())==z3::to_real(k)); }
    z3::check_result q=zcheck(g);
    if(q==z3::unsat){st_unsat++;st_gridprune++;return UNSAT;}
    if(q==z3::sat){ z3::model gm=g.get_model(); val=base; if(get_model(gm,vs,val,true)&&valid_assign(cs,val)){*out=val;st_sat++;return SAT;} }
  }
  st_unk++; if(g_out)fprintf(g_out,"NOREAL %s\n","model not representable on the grid"); return UNK;
  }catch(z3::exception&e){ st_unk++; if(g_out)fprintf(g_out,"Z3EXC %s\n",e.msg()); return UNK; }
}

// ---------------------------------------------------------------- trace
static int g_bound=0; static std::vector<u64> g_excl; static u64 g_hash=1469598103934665603ull,g_exphash=0; static int g_n=0; static std::unordered_map<u32,bool> g_known;
static int g_maxentries=4000, g_maxconc=64; static double g_pathstart; 
static void hashin(u64 x){ g_hash^=x; g_hash*=1099511628211ull; g_hash^=g_hash>>29; }
static void emit_vals(const std::vector<u64>&val){ for(size_t i=0;i<V.size();i++) fprintf(g_out," %s=%llx",V[i].name.c_str(),(unsigned long long)val[i]); for(auto&kv:g_input){ bool f=false; for(auto&v:V)if(v.name==kv.first)f=true; if(!f)fprintf(g_out," %s=%llx",kv.first.c_str(),(unsigned long long)kv.second);} }
static void emit_leak();
static void finish(const char*why){
  fprintf(g_out,"PATH %s entries=%d q=%llu sat=%llu unsat=%llu unk=%llu aq=%llu gp=%llu t=%.6f wall=%.6f\n",why,g_n,(unsigned long long)st_q,(unsigned long long)st_sat,(unsigned long long)st_unsat,(unsigned long long)st_unk,(unsigned long long)st_assertq,(unsigned long long)st_gridprune,st_t,now()-g_pathstart);
  // functions touched by symbolic data
  std::sort(g_funcs.begin(),g_funcs.end(),[](const FE&a,const FE&b){return a.p<b.p;});
  std::set<const char*> fs; for(void*p:g_sites){ FE k{p,nullptr}; auto it=std::upper_bound(g_funcs.begin(),g_funcs.end(),k,[](const FE&a,const FE&b){return a.p<b.p;}); if(it!=g_funcs.begin()){--it;fs.insert(it->n);} }
  fprintf(g_out,"FUNCS"); for(auto n:fs)fprintf(g_out," %s",n); fprintf(g_out,"\n");
  if(!g_concfn.empty()){fprintf(g_out,"CONCFN"); for(auto&n:g_concfn)fprintf(g_out," %s",n.c_str()); fprintf(g_out,"\n");}
  emit_leak(); fflush(g_out); _exit(0);
}
static void limits(){ if(g_n>g_maxentries){ fprintf(g_out,"LIMIT entries\n"); finish("limit"); } }
static void post_entry(int idx){ if(idx==g_bound-1&&g_exphash&&g_hash!=g_exphash){ fprintf(g_out,"DIVERGE at %d\n",idx); finish("diverge"); } }
static void emit_new(int bound,u64 hash,const std::vector<u64>*excl,const std::vector<u64>&val){ fprintf(g_out,"NEW %d %llx %zu",bound,(unsigned long long)hash,excl?excl->size():0); if(excl)for(u64 x:*excl)fprintf(g_out," %llx",(unsigned long long)x); emit_vals(val); fprintf(g_out,"\n"); }
static void add_pc(u32 c){ if(isC(c))return; PC.push_back(c); g_known[c]=true; g_known[mkNot(c)]=false; if(E[c].op==O_AND){ /* split */ } }
static void do_branch(u32 e,bool taken){
  if(isC(e))return; auto k=g_known.find(e); if(k!=g_known.end())return;
  limits(); int idx=g_n++; u64 h0=g_hash; hashin(taken?0x51:0x52); u64 h1=g_hash; u32 c=taken?e:mkNot(e);
  if(idx>=g_bound){ std::vector<u64> val; Res r=query(mkNot(c),&val); if(r==SAT){ g_hash=h0; hashin(taken?0x52:0x51); u64 hf=g_hash; g_hash=h1; emit_new(idx+1,hf,nullptr,val);} else if(r==UNK)fprintf(g_out,"UNKNOWN branch\n"); }
  add_pc(c); post_entry(idx);
}
static u64 mkhash(u64 v){return v*0x9E3779B97F4A7C15ull;}
static u32 eqConst(u32 e,u64 v){ switch(E[e].kind){case K_BOOL:return v?e:mkNot(e);case K_BV:return mkEqBV(e,kBV(v,E[e].w));case K_REAL:{u32 k=kReal(D(v));return mk(O_REQ,K_BOOL,1,e,k,0,0,D(E[e].cv)==D(v));}} return 0; }
static void concretize(u32 e,const char*why){
  if(!e||isC(e))return;
  if(E[e].kind==K_BOOL){do_branch(e,E[e].cv);return;}
  u64 cv=E[e].cv; u32 eq=eqConst(e,cv); auto k=g_known.find(eq); if(k!=g_known.end()&&k->second)return;
  if(why)g_concfn.insert(why);
  limits(); int idx=g_n++; u64 h0=g_hash; 
  std::vector<u64> ex; if(idx==g_bound&&!g_excl.empty())ex=g_excl;
  for(u64 x:ex)add_pc(mkNot(eqConst(e,x)));
  if(idx>=g_bound){ 
    if((int)ex.size()>=g_maxconc){ fprintf(g_out,"LIMIT conc %s\n",why?why:"?"); }
    else { std::vector<u64> val; Res r=query(mkNot(eq),&val); if(r==SAT){ ex.push_back(cv); emit_new(idx,h0,&ex,val);} else if(r==UNK)fprintf(g_out,"UNKNOWN conc\n"); } }
  hashin(mkhash(cv)); add_pc(eq); post_entry(idx);
}
static struct{FE*t;u64 n;} g_reg[1024]; static int g_nreg=0; // filled before static constructors run
extern "C" void __sym_register(FE*t,u64 n){ if(g_nreg<1024){g_reg[g_nreg].t=t;g_reg[g_nreg++].n=n;} }
static void load_registry(){ for(int r=0;r<g_nreg;r++)for(u64 i=0;i<g_reg[r].n;i++){g_funcs.push_back(g_reg[r].t[i]);g_instr.insert(g_reg[r].t[i].p);} }

// ---------------------------------------------------------------- shadow memory
struct Page{u32 id[4096];u8 off[4096];int used;};
static const int PT=1<<16; struct PEnt{u64 pg;Page*p;}; static std::unordered_map<u64,Page*>*pages=nullptr; static u64 pbloom[1<<12]; // 256k bits
static inline bool maybe(u64 pg){u64 h=(pg*0x9E3779B97F4A7C15ull)>>46;return pbloom[h>>6]>>(h&63)&1;}
static PEnt pcache[256]; static bool g_ins=false; // inside getPage: the table must not be looked up by free()
static Page* findPage(u64 pg){ if(!maybe(pg))return nullptr; PEnt&c=pcache[pg&255]; if(c.pg==pg&&c.p)return c.p; auto it=pages->find(pg); if(it==pages->end())return nullptr; c={pg,it->second}; return it->second; }
static Page* getPage(u64 pg){ Page*p=findPage(pg); if(p)return p; g_ins=true; if(!pages)pages=new std::unordered_map<u64,Page*>(1<<14); p=(Page*)calloc(1,sizeof(Page)); (*pages)[pg]=p; g_ins=false; u64 h=(pg*0x9E3779B97F4A7C15ull)>>46; pbloom[h>>6]|=1ull<<(h&63); pcache[pg&255]={pg,p}; return p; }
static inline void setByte(u64 a,u32 id,u8 off){ if(id){Page*p=getPage(a>>12);p->id[a&4095]=id;p->off[a&4095]=off;} else {Page*p=findPage(a>>12); if(p)p->id[a&4095]=0;} }
static inline u32 getByte(u64 a,u8&off){Page*p=findPage(a>>12); if(!p)return 0; off=p->off[a&4095]; return p->id[a&4095];}
extern "C" void __sym_clear(void*p,u64 n){ if(!g_active||!pages||g_ins)return; u64 a=(u64)p,e=a+n; while(a<e){ u64 pg=a>>12; u64 lim=std::min(e,(pg+1)<<12); Page*q=findPage(pg); if(q)memset(&q->id[a&4095],0,(lim-a)*4); a=lim; } }
extern "C" void __sym_memset(void*p,u64 n){ __sym_clear(p,n); }
static u8 byteOf(u32 id,u8 off){ const Expr&e=E[id]; return (u8)(e.cv>>(8*off)); }
static int esize(u32 id){ auto&e=E[id]; return e.kind==K_REAL?8:e.kind==K_BOOL?1:(e.w+7)/8; }
extern "C" void __sym_store(void*p,u32 n,u32 s,u64 v){
  if(!g_active)return; u64 a=(u64)p;
  if(!s){ if(pages)__sym_clear(p,n); return; }
  if(isC(s)){__sym_clear(p,n);return;}
  SITE();
  if(E[s].kind==K_BOOL){ s=mk(O_B2BV,K_BV,8*n,s,0,0,0,E[s].cv); }
  for(u32 i=0;i<n;i++)setByte(a+i,s,(u8)i);
}
extern "C" void __sym_conc(u32 s,u64 v,u32 w){ if(g_active&&s){SITE();concretize(s,"value-use");} }
extern "C" u32 __sym_load(void*p,u32 n,u64 v){
  if(!g_active||!pages)return 0; u64 a=(u64)p; u8 off=0; u32 id=getByte(a,off);
  if(n<=8){ bool any=id!=0; bool whole=id&&off==0&&esize(id)==(int)n;
    if(!any||whole){ for(u32 i=1;i<n;i++){u8 o=0;u32 d=getByte(a+i,o); if(d){any=true; } if(d!=id||(d&&o!=i))whole=false;} if(!any)return 0; }
    if(whole){ SITE(); // stale?
      if(E[id].kind==K_REAL){ if(D(E[id].cv)!=D(v)){ if(getenv("SYM_DUMP"))fprintf(stderr,"STALE %p %g %g at %p\n",p,D(E[id].cv),D(v),__builtin_return_address(0)); __sym_clear(p,n);return 0;} return id; }
      if(((E[id].cv^v)&mask(n*8))!=0){__sym_clear(p,n);return 0;} 
      return id; }
  }
  // mixed: build byte-wise for bit vectors, otherwise concretise
  bool allbv=true,any=false; for(u32 i=0;i<n;i++){u8 o=0;u32 d=getByte(a+i,o); if(d){ if(((byteOf(d,o))!=((u8*)p)[i])){setByte(a+i,0,0);continue;} any=true; if(E[d].kind!=K_BV)allbv=false; } }
  if(!any)return 0; SITE();
  if(n<=8&&allbv){ u32 r=0; for(int i=(int)n-1;i>=0;i--){u8 o=0;u32 d=getByte(a+i,o); u32 b; if(d){ int w=E[d].w; b = w==8?d: (8*o+8<=w? mk(O_EXTRACT,K_BV,8,d,0,0,8*o,E[d].cv>>(8*o)) : 0); if(!b){concretize(d,"odd-load");b=kBV(((u8*)p)[i],8);} } else b=kBV(((u8*)p)[i],8); if(!r)r=b; else r=mk(O_CONCAT,K_BV,E[r].w+8,r,b,0,0,(E[r].cv<<8)|E[b].cv); } return r; }
  for(u32 i=0;i<n;i++){u8 o=0;u32 d=getByte(a+i,o); if(d)concretize(d,"partial-load"); }
  return 0;
}
extern "C" void __sym_conc_mem(void*p,u64 n){ if(!g_active||!pages)return; for(u64 i=0;i<n;i++){u8 o=0;u32 d=getByte((u64)p+i,o); if(d){ if(byteOf(d,o)==((u8*)p)[i]) concretize(d,"mem-use"); setByte((u64)p+i,0,0);} } }
extern "C" void __sym_memcpy(void*d,void*s,u64 n){ if(!g_active||!pages||!n||d==s)return; 
  bool any=false; for(u64 a=(u64)s>>12;a<=((u64)s+n-1)>>12;a++)if(findPage(a))any=true;
  if(!any){__sym_clear(d,n);return;}
  u64 S=(u64)s,T=(u64)d; 
  auto one=[&](u64 i){u8 o=0;u32 x=getByte(S+i,o); if(x&&byteOf(x,o)!=*(u8*)(S+i))x=0; setByte(T+i,x,o);};
  if(T<S) for(u64 i=0;i<n;i++)one(i); else for(u64 i=n;i-->0;)one(i);
}
// allocator interposition: freed memory carries no shadow
extern "C" { void*__libc_malloc(size_t);void __libc_free(void*);void*__libc_calloc(size_t,size_t);void*__libc_realloc(void*,size_t);void*__libc_memalign(size_t,size_t);
void* malloc(size_t n){return __libc_malloc(n);} void* calloc(size_t a,size_t b){return __libc_calloc(a,b);}
void free(void*p){ if(p&&g_active&&pages)__sym_clear(p,malloc_usable_size(p)); __libc_free(p);}
void* realloc(void*p,size_t n){ if(!p)return malloc(n); if(!(g_active&&pages))return __libc_realloc(p,n); size_t o=malloc_usable_size(p); void*q=__libc_malloc(n); if(!q)return q; size_t c=o<n?o:n; __sym_memcpy(q,p,c); memcpy(q,p,c); free(p); return q;}
void* memalign(size_t a,size_t n){return __libc_memalign(a,n);} void* aligned_alloc(size_t a,size_t n){return __libc_memalign(a,n);} int posix_memalign(void**p,size_t a,size_t n){*p=__libc_memalign(a,n);return *p?0:12;} }

// ---------------------------------------------------------------- operations
static u32 lift(u32 s,u64 v,int w){ // to an expression of the type given by the width code
  if(w==0x140){ if(!s)return kReal(D(v)); if(E[s].kind==K_REAL)return s; concretize(s,"kind"); return kReal(D(v)); }
  if(w==1){ if(!s)return kBool(v&1); if(E[s].kind==K_BOOL)return s; if(E[s].kind==K_BV&&E[s].w==1)return mkEqBV(s,kBV(1,1)); if(E[s].kind==K_BV&&E[s].op==O_B2BV)return E[s].a; concretize(s,"kind"); return kBool(v&1); }
  if(!s)return kBV(v,w); if(E[s].kind==K_BV&&E[s].w==w)return s; if(E[s].kind==K_BOOL)return mk(O_B2BV,K_BV,w,s,0,0,0,E[s].cv); if(E[s].kind==K_BV){ if(E[s].w<w)return mk(O_ZEXT,K_BV,w,s,0,0,0,E[s].cv); return mk(O_EXTRACT,K_BV,w,s,0,0,0,E[s].cv);} concretize(s,"kind"); return kBV(v,w);
}
static u32 out(u32 r){ return isC(r)?0:r; }
static u32 cmpReal(u32 a,u32 b,int kind){ // 0 lt,1 le,2 eq ; returns bool expr, possibly constant
  if(a==b)return kBool(kind!=0);
  auto&A=E[a];auto&B=E[b];
  if(kind==0){ if(A.hi<B.lo)return kBool(1); if(A.lo>=B.hi)return kBool(0); return mk(O_RLT,K_BOOL,1,a,b,0,0,D(A.cv)<D(B.cv)); }
  if(kind==1){ if(A.hi<=B.lo)return kBool(1); if(A.lo>B.hi)return kBool(0); return mkNot(mk(O_RLT,K_BOOL,1,b,a,0,0,D(B.cv)<D(A.cv))); }
  if(A.hi<B.lo||A.lo>B.hi)return kBool(0); if(a>b)std::swap(a,b); return mk(O_REQ,K_BOOL,1,a,b,0,0,D(A.cv)==D(B.cv));
}
static void signbranch(u32 a){ u32 z=kReal(0); u32 g=cmpReal(z,a,0); if(!isC(g))do_branch(g,E[g].cv); if(!E[g].cv){ u32 l=cmpReal(a,z,0); if(!isC(l))do_branch(l,E[l].cv);} }
static u32 fbin(int op,u32 sa,u64 va,u32 sb,u64 vb,u64 res){
  bool ia=!sa&&!std::isfinite(D(va)),ib=!sb&&!std::isfinite(D(vb));
  if(ia||ib){ if(op==18||op==21){ /*fmul,fdiv*/ if(!(ia&&std::isnan(D(va)))&&!(ib&&std::isnan(D(vb)))){ if(ia&&sb)signbranch(sb); if(ib&&sa&&op==18)signbranch(sa);} } return 0; }
  u32 a=lift(sa,va,0x140),b=lift(sb,vb,0x140); auto ma=[&](u32 x){return std::max(std::fabs(E[x].lo),std::fabs(E[x].hi));};
  if(op==14||op==16){ // fadd fsub : absorption by huge constants
    if(isC(b)&&std::fabs(D(vb))>=1e40&&ma(a)<=std::fabs(D(vb))*1e-20)return 0; if(isC(a)&&std::fabs(D(va))>=1e40&&ma(b)<=std::fabs(D(va))*1e-20)return 0;
    if(isC(b)&&D(E[b].cv)==0)return out(a); if(isC(a)&&D(E[a].cv)==0){ if(op==14)return out(b); return out(mk(O_RNEG,K_REAL,64,b,0,0,0,res)); }
    if(op==16&&a==b)return 0;
    if(op==14&&a>b)std::swap(a,b);
    return mk(op==14?O_RADD:O_RSUB,K_REAL,64,a,b,0,0,res); }
  if(op==18){ if((isC(a)&&D(E[a].cv)==0)||(isC(b)&&D(E[b].cv)==0))return 0; if(isC(a)&&D(E[a].cv)==1)return out(b); if(isC(b)&&D(E[b].cv)==1)return out(a); 
    for(int t=0;t<2;t++){ if(E[b].op==O_ITE&&isC(E[b].b)&&isC(E[b].c)&&E[E[b].b].kind==K_REAL&&!isC(a)){ /* distribute over constant ite to keep it linear */ double x=D(E[E[b].b].k),y=D(E[E[b].c].k); double av=D(E[a].cv); auto term=[&](double k){ if(k==0)return kReal(0); if(k==1)return a; return mk(O_RMUL,K_REAL,64,std::min(a,kReal(k)),std::max(a,kReal(k)),0,0,U(av*k)); }; u32 tx=term(x),ty=term(y); return mk(O_ITE,K_REAL,64,E[b].a,tx,ty,0,res);} std::swap(a,b);} 
    if(a>b)std::swap(a,b); return mk(O_RMUL,K_REAL,64,a,b,0,0,res); }
  if(op==21){ if(isC(b)){ double d=D(E[b].cv); if(d==0){signbranch(a);return 0;} if(d==1)return out(a); return mk(O_RDIV,K_REAL,64,a,b,0,0,res);} 
    u32 z=kReal(0); u32 eq=cmpReal(b,z,2); if(!isC(eq))do_branch(eq,E[eq].cv); if(D(E[b].cv)==0){ if(sa)signbranch(a); return 0; } if(isC(a)&&D(E[a].cv)==0)return 0; return mk(O_RDIV,K_REAL,64,a,b,0,0,res); }
  if(sa)concretize(sa,"frem"); if(sb)concretize(sb,"frem"); return 0;
}
// LLVM 18 opcodes: FNeg=12 Add=13 FAdd=14 Sub=15 FSub=16 Mul=17 FMul=18 UDiv=19 SDiv=20 FDiv=21 URem=22 SRem=23 FRem=24 Shl=25 LShr=26 AShr=27 And=28 Or=29 Xor=30
extern "C" u32 __sym_bin(u32 op,u32 w,u32 sa,u64 va,u32 sb,u64 vb,u64 res){
  if(!(sa|sb)||!g_active)return 0; SITE();
  if(op==12){ u32 a=lift(sa,va,0x140); if(isC(a))return 0; return mk(O_RNEG,K_REAL,64,a,0,0,0,res); }
  if(w==0x140)return fbin((int)op,sa,va,sb,vb,res);
  u32 a=lift(sa,va,(int)w),b=lift(sb,vb,(int)w); if(isC(a)&&isC(b))return 0;
  if(w==1){ switch(op){case 28:case 17:return out(mkAnd(a,b));case 29:return out(mkOr(a,b));case 30:case 13:case 15: if(isC(b))return out(E[b].cv?mkNot(a):a); if(isC(a))return out(E[a].cv?mkNot(b):b); return mk(O_XOR,K_BOOL,1,a,b,0,0,res&1);} concretize(a,"i1op");concretize(b,"i1op");return 0; }
  Op o; switch(op){case 13:o=O_ADD;break;case 15:o=O_SUB;break;case 17:o=O_MUL;break;case 19:o=O_UDIV;break;case 20:o=O_SDIV;break;case 22:o=O_UREM;break;case 23:o=O_SREM;break;case 25:o=O_SHL;break;case 26:o=O_LSHR;break;case 27:o=O_ASHR;break;case 28:o=O_BAND;break;case 29:o=O_BOR;break;case 30:o=O_BXOR;break;default:concretize(a,"op");concretize(b,"op");return 0;}
  if((o==O_ADD||o==O_BOR||o==O_BXOR)&&isC(b)&&E[b].cv==0)return out(a); if((o==O_ADD||o==O_BOR||o==O_BXOR)&&isC(a)&&E[a].cv==0)return out(b); if((o==O_SHL||o==O_LSHR||o==O_ASHR||o==O_SUB)&&isC(b)&&E[b].cv==0)return out(a);
  if(o==O_BAND&&isC(b)&&E[b].cv==1&&E[a].op==O_B2BV)return a; if(o==O_BXOR&&isC(b)&&E[b].cv==1&&E[a].op==O_B2BV){u32 n=mkNot(E[a].a);return mk(O_B2BV,K_BV,(int)w,n,0,0,0,E[n].cv);} 
  if((o==O_BAND||o==O_BOR)&&E[a].op==O_B2BV&&E[b].op==O_B2BV){u32 n=o==O_BAND?mkAnd(E[a].a,E[b].a):mkOr(E[a].a,E[b].a);return mk(O_B2BV,K_BV,(int)w,n,0,0,0,E[n].cv);}
  return mk(o,K_BV,(int)w,a,b,0,0,res);
}
extern "C" u32 __sym_cmp(u32 pred,u32 w,u32 sa,u64 va,u32 sb,u64 vb,u32 res){
  if(!(sa|sb)||!g_active)return 0; SITE();
  if(w==0x140){
    if(!sa&&!std::isfinite(D(va)))return 0; if(!sb&&!std::isfinite(D(vb)))return 0;
    u32 a=lift(sa,va,w),b=lift(sb,vb,w); u32 r;
    switch(pred){case 1:case 9:r=cmpReal(a,b,2);break;case 2:case 10:r=cmpReal(b,a,0);break;case 3:case 11:r=cmpReal(b,a,1);break;case 4:case 12:r=cmpReal(a,b,0);break;case 5:case 13:r=cmpReal(a,b,1);break;case 6:case 14:r=mkNot(cmpReal(a,b,2));break;default:return 0;}
    return out(r);
  }
  if((sa&&E[sa].kind==K_REAL)||(sb&&E[sb].kind==K_REAL)){ if(sa)concretize(sa,"realbits"); if(sb)concretize(sb,"realbits"); return 0; }
  if(w==1){ u32 a=lift(sa,va,1),b=lift(sb,vb,1); u32 r; if(pred==32||pred==33){ if(isC(b))r=E[b].cv?a:mkNot(a); else if(isC(a))r=E[a].cv?b:mkNot(b); else r=mkNot(mk(O_XOR,K_BOOL,1,a,b,0,0,E[a].cv!=E[b].cv)); if(pred==33)r=mkNot(r); return out(r);} if(pred==36)return out(mkAnd(mkNot(a),b)); if(pred==34)return out(mkAnd(a,mkNot(b))); if(pred==37)return out(mkOr(mkNot(a),b)); if(pred==35)return out(mkOr(a,mkNot(b))); concretize(a,"i1cmp");concretize(b,"i1cmp");return 0; }
  u32 a=lift(sa,va,(int)w),b=lift(sb,vb,(int)w); if(isC(a)&&isC(b))return 0;
  if((pred==32||pred==33)&&(E[a].op==O_B2BV||E[b].op==O_B2BV)&&(isC(a)||isC(b))){ u32 x=isC(a)?b:a; u64 c=E[isC(a)?a:b].cv; u32 r= c==0?mkNot(E[x].a):c==1?E[x].a:kBool(0); if(pred==33)r=mkNot(r); return out(r); }
  auto m=[&](Op o,u32 x,u32 y){ bool c=false; int W=(int)w; switch(o){case O_ULT:c=E[x].cv<E[y].cv;break;case O_SLT:c=sx(E[x].cv,W)<sx(E[y].cv,W);break;default:break;} return mk(o,K_BOOL,1,x,y,0,0,c); };
  u32 r; switch(pred){case 32:r=mkEqBV(a,b);break;case 33:r=mkNot(mkEqBV(a,b));break;case 34:r=m(O_ULT,b,a);break;case 35:r=mkNot(m(O_ULT,a,b));break;case 36:r=m(O_ULT,a,b);break;case 37:r=mkNot(m(O_ULT,b,a));break;case 38:r=m(O_SLT,b,a);break;case 39:r=mkNot(m(O_SLT,a,b));break;case 40:r=m(O_SLT,a,b);break;case 41:r=mkNot(m(O_SLT,b,a));break;default:return 0;}
  return out(r);
}
// casts: Trunc=38 ZExt=39 SExt=40 FPToUI=41 FPToSI=42 UIToFP=43 SIToFP=44 FPTrunc=45 FPExt=46 PtrToInt=47 IntToPtr=48 BitCast=49
extern "C" u32 __sym_cast(u32 op,u32 sw,u32 dw,u32 s,u64 v,u64 res){
  if(!s||!g_active)return 0; SITE();
  switch(op){
  case 49: return s;
  case 38: { if(E[s].kind==K_REAL){concretize(s,"trunc");return 0;} if(dw==1){ u32 b=s; if(E[s].kind==K_BOOL)return s; if(E[s].op==O_B2BV)return E[s].a; u32 x=mk(O_EXTRACT,K_BV,1,b,0,0,0,E[b].cv&1); return mkEqBV(x,kBV(1,1)); } u32 a=lift(s,v,(int)sw); if(E[a].op==O_B2BV)return mk(O_B2BV,K_BV,(int)dw,E[a].a,0,0,0,E[E[a].a].cv); if((E[a].op==O_ZEXT||E[a].op==O_SEXT)&&E[E[a].a].w==dw)return E[a].a; return mk(O_EXTRACT,K_BV,(int)dw,a,0,0,0,res); }
  case 39: { if(sw==1){u32 a=lift(s,v,1);return isC(a)?0:mk(O_B2BV,K_BV,(int)dw,a,0,0,0,E[a].cv);} u32 a=lift(s,v,(int)sw); if(E[a].op==O_B2BV)return mk(O_B2BV,K_BV,(int)dw,E[a].a,0,0,0,E[a].cv); return mk(O_ZEXT,K_BV,(int)dw,a,0,0,0,res); }
  case 40: { if(sw==1){u32 a=lift(s,v,1);if(isC(a))return 0; return mk(O_ITE,K_BV,(int)dw,a,kBV(~0ull,(int)dw),kBV(0,(int)dw),0,res);} u32 a=lift(s,v,(int)sw); return mk(O_SEXT,K_BV,(int)dw,a,0,0,0,res); }
  case 43: case 44: { u32 x=s; while(E[x].op==O_ZEXT||E[x].op==O_SEXT)x=E[x].a; if(E[x].kind==K_BOOL||E[x].op==O_B2BV){ u32 b=E[x].kind==K_BOOL?x:E[x].a; double one=(op==44&&sw==1)?-1.:1.; return mk(O_ITE,K_REAL,64,b,kReal(one),kReal(0),0,res);} concretize(s,"int2fp"); return 0; }
  case 41: case 42: { u32 a=lift(s,v,0x140); if(isC(a))return 0; double d=D(E[a].cv); u32 z=kReal(0); u32 neg=cmpReal(a,z,0); if(!isC(neg))do_branch(neg,E[neg].cv); u32 t; if(E[neg].cv){ u32 n=mk(O_RNEG,K_REAL,64,a,0,0,0,U(-d)); t=mk(O_FLOOR,K_REAL,64,n,0,0,0,U(std::floor(-d))); } else t=mk(O_FLOOR,K_REAL,64,a,0,0,0,U(std::floor(d))); concretize(t,"fp2int"); return 0; }
  }
  concretize(s,"cast"); return 0;
}
extern "C" u32 __sym_select(u32 sc,u32 vc,u32 sa,u64 va,u32 sb,u64 vb,u32 w,u64 res){
  if(!(sc|sa|sb)||!g_active)return 0; if(!sc)return vc?sa:sb; SITE();
  u32 c=lift(sc,vc,1); if(isC(c))return vc?sa:sb;
  if(w==0x140||((sa&&E[sa].kind==K_REAL)||(sb&&E[sb].kind==K_REAL))){ 
    if(w!=0x140||(!sa&&!std::isfinite(D(va)))||(!sb&&!std::isfinite(D(vb)))){ do_branch(c,E[c].cv); return vc?sa:sb; }
    u32 a=lift(sa,va,0x140),b=lift(sb,vb,0x140); if(a==b)return out(a);
    // huge sentinel constants and ordinary values: split the path instead of mixing magnitudes
    auto big=[&](u32 x){return isC(x)&&std::fabs(D(E[x].cv))>=1e40;}; if(big(a)||big(b)){do_branch(c,E[c].cv);return vc?sa:sb;}
    return mk(O_ITE,K_REAL,64,c,a,b,0,res); }
  u32 a=lift(sa,va,(int)w),b=lift(sb,vb,(int)w); if(a==b)return out(a);
  if(w==1){ return out(mkOr(mkAnd(c,a),mkAnd(mkNot(c),b))); }
  if(isC(a)&&isC(b)&&E[a].cv==1&&E[b].cv==0)return mk(O_B2BV,K_BV,(int)w,c,0,0,0,E[c].cv); if(isC(a)&&isC(b)&&E[a].cv==0&&E[b].cv==1){u32 n=mkNot(c);return mk(O_B2BV,K_BV,(int)w,n,0,0,0,E[n].cv);}
  return mk(O_ITE,K_BV,(int)w,c,a,b,0,res);
}
extern "C" void __sym_enter(void*f){ if(g_active)note_site(f); }
extern "C" void __sym_branch(u32 s,u32 taken){ if(!s||!g_active)return; SITE(); u32 c=lift(s,taken,1); do_branch(c,taken); }
extern "C" void __sym_switch(u32 s,u64 v,u32 w,u32 n,u64*cs){ if(!s||!g_active)return; SITE(); if(E[s].kind==K_REAL){concretize(s,"switch");return;} if(w==1){do_branch(lift(s,v,1),v&1);return;} u32 a=lift(s,v,(int)w); if(isC(a))return; for(u32 i=0;i<n;i++){ u32 e=eqConst(a,cs[i]); bool t=(v&mask((int)w))==(cs[i]&mask((int)w)); do_branch(e,t); if(t)return; } }
extern "C" u32 __sym_math(u32 mc,u32 w,u32 sa,u64 va,u32 sb,u64 vb,u64 res){
  if(!(sa|sb)||!g_active)return 0; SITE(); u32 z=kReal(0);
  if(w==0x140){
    if(mc==16)return 0; // is.fpclass: symbolic reals are finite
    if((mc==4||mc==5)&&((!sa&&!std::isfinite(D(va)))||(!sb&&!std::isfinite(D(vb))))){ if(!sa&&std::isnan(D(va)))return sb; if(!sb&&std::isnan(D(vb)))return sa; double c=!sa?D(va):D(vb); bool pickC=(mc==4)==(c<0); return pickC?0:(sa?sa:sb); }
    u32 a=lift(sa,va,w); double x=D(E[a].cv);
    switch(mc){
    case 1:{ if(E[a].lo>=0)return out(a); u32 n=mk(O_RNEG,K_REAL,64,a,0,0,0,U(-x)); if(E[a].hi<=0)return n; return mk(O_ITE,K_REAL,64,cmpReal(a,z,0),n,a,0,res); }
    case 2: return mk(O_FLOOR,K_REAL,64,a,0,0,0,res);
    case 3:{ u32 n=mk(O_RNEG,K_REAL,64,a,0,0,0,U(-x)); u32 f=mk(O_FLOOR,K_REAL,64,n,0,0,0,U(std::floor(-x))); return mk(O_RNEG,K_REAL,64,f,0,0,0,res); }
    case 4: case 5:{ u32 b=lift(sb,vb,w); u32 c=mc==4?cmpReal(a,b,0):cmpReal(b,a,0); if(isC(c))return out(E[c].cv?a:b); return mk(O_ITE,K_REAL,64,c,a,b,0,res); }
    case 6:{ u32 neg=cmpReal(a,z,0); if(!isC(neg))do_branch(neg,E[neg].cv); if(E[neg].cv)return 0; return mk(O_SQRT,K_REAL,64,a,0,0,0,res); }
    case 12: case 13: case 15: { concretize(a,"round"); return 0; }
    default: concretize(a,"math"); if(sb)concretize(sb,"math"); return 0; }
  }
  u32 a=lift(sa,va,(int)w); if(mc==16)return 0;
  if(mc==11){ u32 neg=mk(O_SLT,K_BOOL,1,a,kBV(0,(int)w),0,0,sx(E[a].cv,(int)w)<0); return mk(O_ITE,K_BV,(int)w,neg,mk(O_SUB,K_BV,(int)w,kBV(0,(int)w),a,0,0,0-E[a].cv),a,0,res); }
  u32 b=lift(sb,vb,(int)w); u32 c; switch(mc){case 7:c=mk(O_SLT,K_BOOL,1,a,b,0,0,sx(E[a].cv,(int)w)<sx(E[b].cv,(int)w));break;case 8:c=mk(O_SLT,K_BOOL,1,b,a,0,0,sx(E[b].cv,(int)w)<sx(E[a].cv,(int)w));break;case 9:c=mk(O_ULT,K_BOOL,1,a,b,0,0,E[a].cv<E[b].cv);break;case 10:c=mk(O_ULT,K_BOOL,1,b,a,0,0,E[b].cv<E[a].cv);break;default:concretize(a,"math");concretize(b,"math");return 0;}
  return mk(O_ITE,K_BV,(int)w,c,a,b,0,res);
}
// ---------------------------------------------------------------- calls
static bool sink(const char*n){ // functions that only print
  if(!n)return false; static const char*s[]={"printf","fprintf","sprintf","snprintf","__printf_chk","__fprintf_chk","__sprintf_chk","__snprintf_chk","puts","putchar","_ZNSolsEd","_ZNSolsEi","_ZNSolsEb","_ZNSolsEl","_ZNSolsEm","_ZNSo9_M_insertIdEERSoT_","_ZNSo9_M_insertIbEERSoT_","_ZNSo9_M_insertIlEERSoT_","_ZNSo9_M_insertImEERSoT_","_ZN18CoinMessageHandlerlsEd","_ZN18CoinMessageHandlerlsEi","_ZNK5Ipopt10Journalist6PrintfENS_13EJournalLevelENS_16EJournalCategoryEPKcz",0}; for(int i=0;s[i];i++)if(!strcmp(n,s[i]))return true; return false; }
extern "C" void __sym_precall(void*callee,u32 n,const char*name){
  if(!g_active)return; bool any=false; for(u32 i=0;i<n;i++)if(__sym_args[i])any=true; if(!any)return;
  if(g_instr.count(callee))return; if(name&&!strncmp(name,"sym_",4))return; if(sink(name))return;
  std::string why="ext:"; if(name)why+=name; else{ char**s=backtrace_symbols(&callee,1); why+=s?s[0]:"?"; for(auto&c:why)if(c==' ')c='_'; if(why.find("CoinMessageHandler")!=std::string::npos&&why.find("ls")!=std::string::npos)return; }
  SITE(); for(u32 i=0;i<n;i++)if(__sym_args[i])concretize(__sym_args[i],why.c_str());
}
// Memory with symbolic content reaching code that is not encoded: the callee
// sees concrete bytes only, so this is reported (LEAK) and the driver refuses
// to call the exploration complete unless the callee is known not to copy.
#include <cstdarg>
static std::set<std::string> g_leak; static bool g_leakon=true; static char*g_heaplo=nullptr;
static bool shadowed(u64 a,u64 n){ for(u64 i=0;i<n;i++){u8 o=0;u32 d=getByte(a+i,o); if(d&&byteOf(d,o)==*(u8*)(a+i)&&!isC(d))return true;} return false; }
static bool heapptr(u64 p){ return g_heaplo&&p>=(u64)g_heaplo&&p<(u64)sbrk(0)&&!(p&7); }
static bool harmless(const char*n);
extern "C" void __sym_ext(void*callee,const char*name,u32 n,...){
  if(!g_active||!pages||!g_leakon||g_instr.count(callee)||sink(name)||harmless(name))return;
  va_list ap; va_start(ap,n); bool leak=false;
  for(u32 i=0;i<n;i++){ void*p=va_arg(ap,void*); u64 a=(u64)p; if(a<0x10000||leak)continue; u64 sz=heapptr(a)?std::min<u64>((u64)sbrk(0)-a,128):96; if((a>>12)!=((a+sz)>>12))sz=4096-(a&4095); if(shadowed(a,sz)){leak=true;continue;}
    if(!(a&7))for(u64 k=0;k+8<=sz;k+=8){ u64 q=*(u64*)(a+k); if(heapptr(q)&&shadowed(q,16)){leak=true;break;} } }
  va_end(ap);
  if(leak){ std::string w; if(name)w=name; else{ char**s=backtrace_symbols(&callee,1); w=s?s[0]:"?"; for(auto&c:w)if(c==' ')c='_'; } g_leak.insert(w); }
}
static bool harmless(const char*n){ if(!n)return false; static std::unordered_set<std::string>*S=nullptr; if(!S){ S=new std::unordered_set<std::string>; const char*l[]={"_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","free","_Znwm","_Znam","strlen","strcmp","fflush","_ZNSo3putEc","_ZNSo5flushEv","_ZNSt8ios_base4InitC1Ev","__cxa_begin_catch","__cxa_end_catch","_Unwind_Resume","__assert_fail","abort","exit","__cxa_throw","__cxa_allocate_exception","__cxa_free_exception","_ZSt20__throw_length_errorPKc",0}; for(int i=0;l[i];i++)S->insert(l[i]); } return S->count(n)||!strncmp(n,"sym_",4)||!strncmp(n,"__sym_",6); }
static void emit_leak(){ if(!g_leak.empty()){fprintf(g_out,"LEAK"); for(auto&n:g_leak)fprintf(g_out," %s",n.c_str()); fprintf(g_out,"\n");} }
// ---------------------------------------------------------------- harness API
static u32 argsh(void*self,int i){ if(__sym_callee!=self)return 0; return __sym_args[i]; }
#define RET(s,self) do{__sym_ret=(s);__sym_retfn=(void*)(self);}while(0)
static u32 newVar(const char*name,Kind k,int w,double lo,double hi,int64_t ilo,int64_t ihi,u64 def){
  std::string nm=name; for(auto&v:V)if(v.name==nm){ if(g_out){fprintf(g_out,"ERROR duplicate variable %s\n",name);finish("error");} abort(); }
  if(V.size()>=256){fprintf(g_out,"ERROR too many variables\n");finish("error");}
  Var v; v.name=nm;v.kind=k;v.w=w;v.lo=lo;v.hi=hi;v.ilo=ilo;v.ihi=ihi; auto it=g_input.find(nm); v.val=it==g_input.end()?def:it->second;
  u32 id=mk(O_VAR,k,w,0,0,0,V.size(),v.val); E[id].vars.set((int)V.size()); E[id].lo=lo;E[id].hi=hi; v.expr=id; V.push_back(v); return id;
}
extern "C" double sym_double(const char*name,double lo,double hi){
  if(!g_active){fprintf(stderr,"sym_double before snapshot\n");abort();}
  double d=(lo<=0&&hi>=0)?0:lo; u32 s=newVar(name,K_REAL,64,lo,hi,0,0,U(d)); RET(s,&sym_double); return D(V.back().val); }
extern "C" int sym_int(const char*name,int lo,int hi){ int d=(lo<=0&&hi>=0)?0:lo; u32 s=newVar(name,K_BV,32,lo,hi,lo,hi,(u64)(u32)d); RET(s,&sym_int); return (int)(u32)V.back().val; }
extern "C" int sym_bool(const char*name){ u32 s=newVar(name,K_BOOL,1,0,1,0,1,0); u32 b=mk(O_B2BV,K_BV,32,s,0,0,0,V.back().val&1); RET(b,&sym_bool); return (int)(V.back().val&1); }
static u32 boolArg(void*self,int i,int v){ u32 s=argsh(self,i); if(!s)return kBool(v!=0); if(E[s].kind==K_BOOL)return s; if(E[s].op==O_B2BV)return E[s].a; if(E[s].kind==K_BV)return mkNot(mkEqBV(s,kBV(0,E[s].w))); concretize(s,"bool"); return kBool(v!=0); }
#define RETB(e,self) do{u32 _e=(e); if(isC(_e))RET(0,self); else RET(mk(O_B2BV,K_BV,32,_e,0,0,0,E[_e].cv),self); return (int)E[_e].cv;}while(0)
extern "C" int sym_and(int a,int b){ if(!g_active)return a&&b; u32 x=boolArg((void*)&sym_and,0,a),y=boolArg((void*)&sym_and,1,b); RETB(mkAnd(x,y),&sym_and); }
extern "C" int sym_or(int a,int b){ if(!g_active)return a||b; u32 x=boolArg((void*)&sym_or,0,a),y=boolArg((void*)&sym_or,1,b); RETB(mkOr(x,y),&sym_or); }
extern "C" int sym_not(int a){ if(!g_active)return !a; u32 x=boolArg((void*)&sym_not,0,a); RETB(mkNot(x),&sym_not); }
extern "C" int sym_implies(int a,int b){ if(!g_active)return !a||b; u32 x=boolArg((void*)&sym_implies,0,a),y=boolArg((void*)&sym_implies,1,b); RETB(mkOr(mkNot(x),y),&sym_implies); }
static std::vector<u64> curvals(){std::vector<u64> v; for(auto&x:V)v.push_back(x.val); return v;}
extern "C" void sym_assume(int cond){ if(!g_active)return; u32 c=boolArg((void*)&sym_assume,0,cond); __sym_callee=nullptr; if(isC(c)){ if(!cond)finish("assume"); return; } auto k=g_known.find(c); if(k!=g_known.end()&&k->second)return; if(cond){ int idx=g_n++; hashin(0x51); add_pc(c); post_entry(idx); } else { do_branch(c,false); finish("assume"); } }
extern "C" void sym_assert(int cond,const char*what){
  if(!g_active){ if(!cond){fprintf(stderr,"assertion failed before snapshot: %s\n",what);abort();} return; }
  u32 c=boolArg((void*)&sym_assert,0,cond); __sym_callee=nullptr;
  static std::map<std::string,int> seen; 
  if(isC(c)){ fprintf(g_out,"ASSERT %s\n",what); if(!cond){ fprintf(g_out,"VIOL %s |",what); emit_vals(curvals()); fprintf(g_out,"\n"); finish("violation"); } return; }
  auto k=g_known.find(c); if(k!=g_known.end()&&k->second){ fprintf(g_out,"ASSERT %s\n",what); return; }
  int idx=g_n++; hashin(0x71);
  if(!cond){ fprintf(g_out,"ASSERT %s\nVIOL %s |",what,what); emit_vals(curvals()); fprintf(g_out,"\n"); finish("violation"); }
  if(idx>=g_bound){ fprintf(g_out,"ASSERT %s\n",what); std::vector<u64> val; st_assertq++; Res r=query(mkNot(c),&val); if(r==SAT){ if(getenv("SYM_DUMP")){ std::string z=Z3_ast_to_string(*Z,toZ(c)); fprintf(stderr,"DUMP %s\n%s\n",what,z.c_str()); } fprintf(g_out,"VIOL %s |",what); emit_vals(val); fprintf(g_out,"\n"); } else if(r==UNK)fprintf(g_out,"UNKNOWN assert %s\n",what); if(r==SAT)add_pc(c); }
  g_known[c]=true; g_known[mkNot(c)]=false; post_entry(idx);
}
extern "C" void sym_reach(const char*what){ if(g_active)fprintf(g_out,"REACH %s\n",what); }
extern "C" int sym_fork_int(int v){ u32 s=argsh((void*)&sym_fork_int,0); __sym_callee=nullptr; if(g_active&&s)concretize(s,nullptr); RET(0,&sym_fork_int); return v; }
extern "C" double sym_fork_double(double v){ u32 s=argsh((void*)&sym_fork_double,0); __sym_callee=nullptr; if(g_active&&s)concretize(s,nullptr); RET(0,&sym_fork_double); return v; }
extern "C" int sym_choose(const char*name,int n){ u32 s=newVar(name,K_BV,32,0,n-1,0,n-1,0); int v=(int)(u32)V.back().val; concretize(s,nullptr); RET(0,&sym_choose); return v; }
extern "C" void sym_grid(int s){g_grid=s;}
extern "C" void sym_end(void){ if(g_active)finish("end"); }
extern "C" int sym_native(void){RET(0,&sym_native);return 0;}
extern "C" void sym_note(const char*,double){}
static volatile pid_t g_child=0; static void onalrm(int){ if(g_child)kill(g_child,SIGKILL); }
static void onsegv(int s,siginfo_t*i,void*){ char n[64]; sprintf(n,"/tmp/sym-bt.%d",getpid()); int f=open(n,O_CREAT|O_WRONLY,0644); void*b[60]; int k=backtrace(b,60); dprintf(f,"addr %p\n",i->si_addr); backtrace_symbols_fd(b,k,f); close(f); signal(s,SIG_DFL); raise(s); }
extern "C" void sym_snapshot(void){
  if(getenv("SYM_BT")){ struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=onsegv; a.sa_flags=SA_SIGINFO; sigaction(SIGSEGV,&a,0); }
  const char*in=getenv("SYM_IN"),*ou=getenv("SYM_OUT"); if(!in||!ou){fprintf(stderr,"no fork server pipes\n");exit(3);} 
  FILE*fi=fdopen(atoi(in),"r"); g_out=fdopen(atoi(ou),"w"); setvbuf(g_out,nullptr,_IOFBF,1<<20);
  if(getenv("SYM_QTIMEOUT"))g_qtimeout=atoi(getenv("SYM_QTIMEOUT")); if(getenv("SYM_MAXENTRIES"))g_maxentries=atoi(getenv("SYM_MAXENTRIES")); if(getenv("SYM_MAXCONC"))g_maxconc=atoi(getenv("SYM_MAXCONC")); int ptime=getenv("SYM_PATHTIME")?atoi(getenv("SYM_PATHTIME")):120;
  static char line[1<<20]; load_registry(); signal(SIGALRM,onalrm); { void*h=malloc(16); g_heaplo=(char*)((u64)h&~0xfffffffull); }
  while(fgets(line,sizeof line,fi)){
    if(!strncmp(line,"QUIT",4))_exit(0);
    fflush(g_out); pid_t p=fork();
    if(p==0){
      signal(SIGALRM,SIG_DFL);
      char*sv;char*t=strtok_r(line," \n",&sv); g_bound=atoi(t); t=strtok_r(nullptr," \n",&sv); g_exphash=strtoull(t,nullptr,16); t=strtok_r(nullptr," \n",&sv); int ne=atoi(t); for(int i=0;i<ne;i++){t=strtok_r(nullptr," \n",&sv);g_excl.push_back(strtoull(t,nullptr,16));}
      while((t=strtok_r(nullptr," \n",&sv))){char*q=strchr(t,'='); if(!q)continue; *q=0; g_input[t]=strtoull(q+1,nullptr,16);} 
      Z=new z3::context; zm=new std::unordered_map<u32,z3::expr>; zsidecond=new std::vector<z3::expr>; cons_tab.reserve(4096); E.reserve(4096);
      memset(__sym_args,0,sizeof __sym_args); __sym_callee=nullptr;__sym_retfn=nullptr; g_pathstart=now(); g_active=true; return;
    }
    g_child=p; alarm(ptime); int st; while(waitpid(p,&st,0)<0){} alarm(0); g_child=0;
    fprintf(g_out,"EXIT %d %d\n",WIFEXITED(st)?WEXITSTATUS(st):-1,WIFSIGNALED(st)?WTERMSIG(st):0); fflush(g_out);
  }
  _exit(0);
}
