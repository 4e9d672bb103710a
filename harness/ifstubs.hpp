// Stand-in NLP solver and a ready interface built through the public API.
#ifndef IFSTUBS_HPP
#define IFSTUBS_HPP
#include "stubs.hpp"
#include "BonTNLPSolver.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonBonminSetup.hpp"
#include "BonIpoptWarmStart.hpp"
#include "CoinWarmStartBasis.hpp"
#include "CoinWarmStartPrimalDual.hpp"
using Bonmin::TNLPSolver; using Bonmin::OsiTMINLPInterface; using Bonmin::TMINLP2TNLP;
static const TNLPSolver::ReturnStatus g_status[]={TNLPSolver::solvedOptimal,TNLPSolver::provenInfeasible,TNLPSolver::iterationLimit,TNLPSolver::solvedOptimalTol,TNLPSolver::unbounded,TNLPSolver::timeLimit,TNLPSolver::doesNotConverge,TNLPSolver::computationError,TNLPSolver::notEnoughFreedom,TNLPSolver::illDefinedProblem,TNLPSolver::illegalOption,TNLPSolver::externalException,TNLPSolver::exception};
static const int NSTATUS=13;
struct StubWS: public CoinWarmStart{ int id; DV x; StubWS(int i):id(i){} CoinWarmStart*clone()const{return new StubWS(*this);} CoinWarmStartDiff*generateDiff(const CoinWarmStart*const)const{return 0;} void applyDiff(const CoinWarmStartDiff*const){} };
struct SolveRec{ bool re; DV l,u,x; bool hasx; int status; DV sx,sz,sg,sl; double obj; bool warm; int ws; };
// what a solve answers: filled by the harness before (plan) or drawn on demand
struct Answer{ TNLPSolver::ReturnStatus st; DV x,z,g,lam; double obj; };
struct StubSolver: public TNLPSolver{
  struct Err: public UnsolvedError{ std::string a,b; Err(int n,SmartPtr<TMINLP2TNLP> p,std::string s):UnsolvedError(n,p,s==""?std::string("x"):s),a("stub error"),b("stub"){} const std::string&errorName()const{return a;} const std::string&solverName()const{return b;} };
  struct Shared{ std::vector<SolveRec> calls; int lastErr; void(*answer)(int k,Answer&,StubSolver&); int iters; double cpu; Shared():lastErr(0),answer(0),iters(1),cpu(0){} };
  Shared*S; std::string nm_; bool warm; int ws; Ipopt::SmartPtr<Ipopt::TNLP> lastp;
  StubSolver(SmartPtr<Bonmin::RegisteredOptions> r,SmartPtr<Ipopt::OptionsList> o,SmartPtr<Ipopt::Journalist> j,Shared*s):TNLPSolver(r,o,j,"bonmin."),S(s),nm_("stub"),warm(false),ws(0){}
  StubSolver(const StubSolver&o):TNLPSolver(o),S(o.S),nm_(o.nm_),warm(o.warm),ws(o.ws){}
  UnsolvedError*newUnsolvedError(int n,SmartPtr<TMINLP2TNLP> p,std::string s){return new Err(n,p,s);}
  SmartPtr<TNLPSolver> clone(){return new StubSolver(*this);}
  bool Initialize(std::string){return true;} bool Initialize(std::istream&){return true;}
  ReturnStatus run(const SmartPtr<Ipopt::TNLP>&p,bool re){
    lastp=p; int k=(int)S->calls.size(); SolveRec c; c.re=re; c.warm=warm; c.ws=ws; Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; p->get_nlp_info(n,m,nj,nh,st);
    c.l.assign(n,0);c.u.assign(n,0);c.x.assign(n,0); DV gl(m+1),gu(m+1); p->get_bounds_info(n,&c.l[0],&c.u[0],m,&gl[0],&gu[0]);
    DV z1(n),z2(n),la(m+1); c.hasx=p->get_starting_point(n,true,&c.x[0],false,&z1[0],&z2[0],m,false,&la[0]);
    Answer a; a.x.assign(n,0);a.z.assign(2*n,0);a.g.assign(m,0);a.lam.assign(m,0);a.obj=0;a.st=solvedOptimal; S->answer(k,a,*this);
    c.status=a.st;c.sx=a.x;c.sz=a.z;c.sg=a.g;c.sl=a.lam;c.obj=a.obj; S->calls.push_back(c);
    Ipopt::SolverReturn sr=a.st==solvedOptimal?Ipopt::SUCCESS:a.st==solvedOptimalTol?Ipopt::STOP_AT_ACCEPTABLE_POINT:a.st==provenInfeasible?Ipopt::LOCAL_INFEASIBILITY:a.st==iterationLimit?Ipopt::MAXITER_EXCEEDED:a.st==unbounded?Ipopt::DIVERGING_ITERATES:Ipopt::INTERNAL_ERROR;
    p->finalize_solution(sr,n,&a.x[0],&a.z[0],&a.z[n],m,m?&a.g[0]:0,m?&a.lam[0]:0,a.obj,NULL,NULL); return a.st; }
  ReturnStatus OptimizeTNLP(const SmartPtr<Ipopt::TNLP>&p){return run(p,false);} ReturnStatus ReOptimizeTNLP(const SmartPtr<Ipopt::TNLP>&p){return run(p,true);}
  bool setWarmStart(const CoinWarmStart*w,SmartPtr<TMINLP2TNLP>t){ const StubWS*s=dynamic_cast<const StubWS*>(w); ws=s?s->id:-1; if(s&&s->x.size())t->setxInit((int)s->x.size(),&s->x[0]); return true; }
  CoinWarmStart*getUsedWarmStart(SmartPtr<TMINLP2TNLP>t)const{StubWS*w=new StubWS(ws); if(t->x_init())w->x.assign(t->x_init(),t->x_init()+t->num_variables()); return w;} CoinWarmStart*getWarmStart(SmartPtr<TMINLP2TNLP>)const{return new StubWS(1000+(int)S->calls.size());} CoinWarmStart*getEmptyWarmStart()const{return new StubWS(0);}
  bool warmStartIsValid(const CoinWarmStart*w)const{const StubWS*s=dynamic_cast<const StubWS*>(w); return s&&s->id>0;}
  void enableWarmStart(){warm=true;} void disableWarmStart(){warm=false;} double CPUTime(){return S->cpu;} int IterationCount(){return S->iters;} void setOutputToDefault(){} void forceSolverOutput(int){} std::string&solverName(){return nm_;} int errorCode()const{return -4711;}
};
struct IF{ Bonmin::BonminSetup*b; OsiTMINLPInterface*si; StubSolver::Shared sh; StubMINLP*t; SmartPtr<TMINLP> keep; SmartPtr<TNLPSolver> sol;
  // concrete part: option tables and an interface (call before the snapshot)
  void prepare(){ b=new Bonmin::BonminSetup(); b->initializeOptionsAndJournalist(); b->options()->SetIntegerValue("bonmin.nlp_log_level",0,true,true); b->options()->SetIntegerValue("print_level",0,true,true); si=0; t=0; }
  void opti(const char*k,int v){ b->options()->SetIntegerValue(std::string("bonmin.")+k,v,true,true); }
  void optd(const char*k,double v){ b->options()->SetNumericValue(std::string("bonmin.")+k,v,true,true); }
  void opts(const char*k,const char*v){ b->options()->SetStringValue(std::string("bonmin.")+k,v,true,true); }
  // interface on the problem, with the stand-in solver (sh.answer must be set before solving)
  void make(StubMINLP*p){ t=p; keep=p; si=new OsiTMINLPInterface; sol=new StubSolver(b->roptions(),b->options(),b->journalist(),&sh); si->setSolver(sol); si->initialize(b->roptions(),b->options(),b->journalist(),"bonmin.",keep); si->extractInterfaceParams(); si->messageHandler()->setLogLevel(0); }
  StubSolver*ss(){ return (StubSolver*)Ipopt::GetRawPtr(sol); }
};
static int g_rnd=0; static double g_rnd_hi=1.;
extern "C" double drand48() noexcept { return sym_double(nm("rnd",g_rnd++),0.,g_rnd_hi); }
#endif
