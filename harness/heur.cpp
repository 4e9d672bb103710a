// Primal heuristics: what they hand to the tree search, and what they leave behind.
// The MILP sub-solver (SubMipSolver) is a stand-in; so are the NLP solver and the tree search.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcHeuristic.hpp"
#include "BonSubMipSolver.hpp"
#include "BonHeuristicDive.hpp"
#include "BonHeuristicDiveMIP.hpp"
#include "BonMilpRounding.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "lpstub.hpp"
#include "BonCbc.hpp"
#include "BonHeuristicDiveFractional.hpp"
#include "BonHeuristicDiveVectorLength.hpp"
#include "BonHeuristicDiveMIPFractional.hpp"
#include "BonHeuristicDiveMIPVectorLength.hpp"
#include "BonHeuristicFPump.hpp"
#include "BonHeuristicRINS.hpp"
#include "BonHeuristicLocalBranching.hpp"
#include "BonFixAndSolveHeuristic.hpp"
#include "BonDummyPump.hpp"
#include "BonPumpForMinlp.hpp"
#include "OsiBranchingObject.hpp"
#include "CbcSimpleInteger.hpp"
using namespace Bonmin;
// x0 integer, in nonlinear terms; x1 integer, linear; x2 continuous, linear
// row 0 linear: x0 + 2 x1 - x2 ; row 1 "nonlinear": 4 x0 - x1 + 8 x2 ; objective 2 x0 - x1 + x2
static const int N=3,M=2; static IF F; static BonminSetup*B; static bool g_live=false; static const double TOL=1./128; static int g_max; static bool g_grid=false,g_inner=false;
static const double G[M][N]={{1,2,-1},{4,-1,8}},OB[N]={2,-1,1}; static DV g_gl(M),g_gu(M),g_l(N),g_u(N);
static double gval(int i,const double*x){ double s=0; for(int j=0;j<N;j++)s+=G[i][j]*x[j]; return s; } static double fval(const double*x){ double s=0; for(int j=0;j<N;j++)s+=OB[j]*x[j]; return s; }
static int isint(double v){ double d=v-floor(v+0.5); return sym_and(d<=TOL,d>=-TOL); }
static int feas(const double*x,double e){ int r=1; for(int i=0;i<N;i++)r=sym_and(r,sym_and(x[i]>=g_l[i],x[i]<=g_u[i])); for(int i=0;i<M;i++){ double v=gval(i,x); r=sym_and(r,sym_and(v>=g_gl[i]-e,v<=g_gu[i]+e)); } return r; }
static StubLP*g_mip; static int g_nmip; static DV g_mx,g_opt,g_bl,g_bu; static DV g_last; static int g_lastst,g_nlp; static double g_lastobj;
static void draw(int k,Answer&a,StubSolver&s){ if(!g_live){ a.x.assign(a.x.size(),0.); return; } g_nlp++; Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; s.lastp->get_nlp_info(n,m,nj,nh,st); DV l(n),u(n),gl(m+1),gu(m+1); s.lastp->get_bounds_info(n,&l[0],&u[0],m,&gl[0],&gu[0]);
  for(int i=0;i<N;i++)A(sym_and(l[i]>=g_l[i],u[i]<=g_u[i]),"the heuristic searches within the bounds of the node");
  g_bl=l; g_bu=u; if(g_mx.size())for(int i=0;i<2;i++)A(sym_and(l[i]==u[i],l[i]==floor(g_mx[i]+0.5)),"integer variables are fixed at the values of the MILP");
  if(g_nlp>g_max)sym_assume(0); a.st=sc("st",2,k)?TNLPSolver::provenInfeasible:TNLPSolver::solvedOptimal; for(int i=0;i<N;i++){ if(g_grid&&i<2&&l[i]>=u[i])a.x[i]=l[i]; else if(g_grid&&i<2){ int c=a.st!=TNLPSolver::solvedOptimal?2:sc("cls",3,k,i); a.x[i]=c==2?sdr("sx",1./16,F.t->xu[i]-1./16,k,i):c; } else a.x[i]=sd("sx",k,i); sym_assume(sym_and(a.x[i]>=l[i],a.x[i]<=u[i])); }
  if(g_inner){ for(int i=0;i<2;i++){ sym_assume(isint(a.x[i])); } DV gg(m+1); s.lastp->eval_g(n,&a.x[0],true,m,&gg[0]); for(int i=0;i<m;i++)sym_assume(sym_and(gg[i]>=gl[i],gg[i]<=gu[i])); s.lastp->eval_f(n,&a.x[0],true,a.obj); } else a.obj=g_grid&&g_nlp>=g_max-1?0.:sd("sobj",k,-1,0,8); if(g_grid&&a.obj>0)sym_assume(a.obj>=1./64); if(a.st==TNLPSolver::solvedOptimal)sym_assume(feas(&a.x[0],0)); for(int i=0;i<M;i++)a.g[i]=gval(i,&a.x[0]); for(int i=M;i<(int)a.g.size();i++)a.g[i]=0; g_last=a.x; g_lastst=a.st; if(a.st==TNLPSolver::solvedOptimal)g_opt=a.x; }
OsiSolverInterface*SubMipSolver::solver(){ return g_mip; }
struct Mod{ CbcModel*m; OsiTMINLPInterface*si; };
static Mod setup(const char*algo){ if(par("alg",0))algo="B-Hyb"; StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->quad=true; for(int j=0;j<N;j++){ t->fl[j]=OB[j]; for(int i=0;i<M;i++)t->gL[i][j]=G[i][j]; }
  if(par("order",0)){ IV r=t->jr,c=t->jc; for(size_t k=0;k<r.size();k++){ t->jr[k]=r[r.size()-1-k]; t->jc[k]=c[r.size()-1-k]; } } if(par("fort",0))t->style=Ipopt::TNLP::FORTRAN_STYLE;
  t->vt[0]=t->vt[1]=par("bin",0)?TMINLP::BINARY:TMINLP::INTEGER; t->clin[0]=Ipopt::TNLP::LINEAR; t->vlin[1]=t->vlin[2]=Ipopt::TNLP::LINEAR; int hi=par("hi",1); t->xl[0]=t->xl[1]=0; t->xu[0]=t->xu[1]=hi; t->xl[2]=-4; t->xu[2]=4; t->gl[0]=-64;t->gu[0]=64;t->gl[1]=-64;t->gu[1]=64;
  F.prepare(); F.opts("algorithm",algo); F.optd("integer_tolerance",TOL); F.opti("bb_log_level",0); F.sh.answer=draw; F.make(t); B=new BonminSetup(); B->initialize(*F.si,true); Mod r; r.si=par("alg",0)?B->nonlinearSolver():dynamic_cast<OsiTMINLPInterface*>(B->nonlinearSolver()->clone()); r.si->initialSolve();
  r.m=new CbcModel; if(par("alg",0)){ StubLP*lp=new StubLP; lp->dims(N,1); r.m->solver_=lp; } else r.m->solver_=r.si; r.m->dblParam_[CbcModel::CbcIntegerTolerance]=TOL; r.m->numberNodes_=0; r.m->currentPassNumber_=1; return r; }
// the state at a node: bounds, constraint sides and the NLP solution there are arbitrary
static void node(Mod&o,bool solve=true){ StubMINLP*t=F.t; for(int i=0;i<M;i++){ g_gl[i]=sd("gl",i,-1,-16,16); g_gu[i]=sd("gu",i,-1,-16,16); sym_assume(g_gl[i]<=g_gu[i]); o.si->problem()->g_l(); const_cast<double*>(o.si->problem()->g_l())[i]=g_gl[i]; const_cast<double*>(o.si->problem()->g_u())[i]=g_gu[i]; }
  for(int i=0;i<N;i++){ if(i<2){ g_l[i]=0; g_u[i]=i==1&&par("one",0)?0:t->xu[i]; } else { g_l[i]=sd("l2",-1,-1,-4,4); g_u[i]=sd("u2",-1,-1,-4,4); sym_assume(g_l[i]<=g_u[i]); } o.si->setColLower(i,g_l[i]); o.si->setColUpper(i,g_u[i]); }
  g_max=1000; g_live=true; if(solve){ F.sh.calls.clear(); o.si->initialSolve(); if(par("opt",1))sym_assume(g_lastst==TNLPSolver::solvedOptimal); } g_nlp=0; g_max=par("max",4); }
CASE(dive){
  Mod o=setup("B-BB"); HeuristicDive*h=par("kind",0)?(HeuristicDive*)new HeuristicDiveVectorLength(B):(HeuristicDive*)new HeuristicDiveFractional(B); h->setPercentageToFix(par("pct",100)/100.); h->howOften_=par("often",100); o.m->numberNodes_=par("nodes",0); o.m->currentPassNumber_=par("pass",1);
  if(par("copy",0))h=(HeuristicDive*)h->clone(); h->setModel(o.m); sym_snapshot(); node(o); DV x0=g_last; DV l0=g_l,u0=g_u; double v0=sd("inc",-1,-1,-40,40),v=v0; DV y(N,777.); int r=h->solution(v,&y[0]);
  bool sched=par("nodes",0)%par("often",100)==0&&par("pass",1)<=1; if(!sched){ A(r==0&&g_nlp==0,"the heuristic runs only as often as asked for"); }
  if(r){ A(feas(&y[0],1e-6),"a solution found satisfies bounds and constraints"); A(sym_and(isint(y[0]),isint(y[1])),"a solution found is integral"); A(same(v,fval(&y[0])),"its value is the objective there"); A(v<v0,"it is better than the incumbent"); }
  else { A(same(v,v0),"no solution: the value stays"); for(int i=0;i<N;i++)A(same(y[i],777.),"no solution: the point stays"); }
  if(sched){ int good=sym_and(g_lastst==TNLPSolver::solvedOptimal,sym_and(sym_and(isint(g_last[0]),isint(g_last[1])),fval(&g_last[0])<v0)); A(sym_or(r,!good),"a dive ending in a better integral solution reports it"); if(sym_and(isint(x0[0]),isint(x0[1])))A(g_nlp==0,"no dive from an integral point"); }
  for(int i=0;i<N;i++)A(sym_and(same(o.si->getColLower()[i],l0[i]),same(o.si->getColUpper()[i],u0[i])),"the node's bounds are untouched");
  sym_reach(r?"found":"none");
}
static int mfeas(StubLP&s,const DV&y){ int r=1; for(int j=0;j<s.n;j++)r=sym_and(r,sym_and(y[j]>=s.cl[j],y[j]<=s.cu[j])); for(int i=0;i<s.m;i++){ double v=s.lhs(i,y); r=sym_and(r,sym_and(v>=s.rl[i],v<=s.ru[i])); } return r; }
static int iff(int a,int b){ return sym_or(sym_and(a,b),sym_and(!a,!b)); }
static int g_all; // MILP over all variables and the linear rows only, or over the linear variables with the others fixed
void SubMipSolver::optimize(double,int,double){ StubLP&s=*g_mip; int k=g_nmip++; A(s.n==(g_all?N:2),"columns of the MILP"); DV w(N); for(int i=0;i<N;i++)w[i]=sd("w",k,i,-16,16); if(!g_all)w[0]=g_opt[0]; DV y(w.begin()+(g_all?0:1),w.end()); int in=1; for(int j=g_all?0:1;j<N;j++)in=sym_and(in,sym_and(w[j]>=g_bl[j],w[j]<=g_bu[j]));
  for(int i=0;i<(g_all?1:M);i++){ double v=gval(i,&w[0]); in=sym_and(in,sym_and(v>=g_gl[i],v<=g_gu[i])); } A(iff(in,mfeas(s,y)),"the MILP admits exactly the points that satisfy the bounds and the constraints it stands for");
  for(int j=0;j<s.n;j++){ int v=g_all?j:j+1; A((s.isint[j]!=0)==(v<2),"integer variables of the MILP"); if(!g_all)A(same(s.ob[j],OB[v]),"objective of the MILP"); }
  delete[] integerSolution_; integerSolution_=0; g_mx.clear(); if(sc("mip",2,k)){ DV z(s.n); integerSolution_=new double[s.n]; for(int j=0;j<s.n;j++){ int v=g_all?j:j+1; z[j]=v<2?sc("mz",F.t->xu[v]+1,k,v)+(par("eps",0)?sdr("me",-TOL/2,TOL/2,k,v):0.):sd("mz",k,v); integerSolution_[j]=z[j]; } sym_assume(mfeas(s,z)); g_mx.assign(N,0.); for(int j=0;j<s.n;j++)g_mx[g_all?j:j+1]=z[j]; if(!g_all)g_mx[0]=g_opt[0]; } else g_mx.assign(1,0.); }
static void check(Mod&o,int r,double v,double v0,const DV&y){
  if(r){ A(feas(&y[0],0),"a solution found satisfies bounds and constraints"); A(sym_and(isint(y[0]),isint(y[1])),"a solution found is integral"); A(same(v,fval(&y[0])),"its value is the objective there"); A(v<v0,"it is better than the incumbent"); }
  else { A(same(v,v0),"no solution: the value stays"); for(int i=0;i<N;i++)A(same(y[i],777.),"no solution: the point stays"); }
  for(int i=0;i<N;i++)A(sym_and(same(o.si->getColLower()[i],g_l[i]),same(o.si->getColUpper()[i],g_u[i])),"the node's bounds are untouched");
  sym_reach(r?"found":"none"); }
// dive on the nonlinear integers, MILP for the others, NLP with all integers fixed
CASE(divemip){
  Mod o=setup("B-BB"); g_mip=new StubLP; g_all=0; HeuristicDiveMIP*h=par("kind",0)?(HeuristicDiveMIP*)new HeuristicDiveMIPVectorLength(B):(HeuristicDiveMIP*)new HeuristicDiveMIPFractional(B); o.m->numberNodes_=par("nodes",0); o.m->currentPassNumber_=par("pass",1);
  if(par("copy",0))h=(HeuristicDiveMIP*)h->clone(); h->setModel(o.m); sym_snapshot(); node(o); double v0=sd("inc",-1,-1,-40,40),v=v0; DV y(N,777.); int r=h->solution(v,&y[0]);
  if(par("nodes",0)||par("pass",1)>1)A(r==0&&g_nlp==0&&g_nmip==0,"the heuristic runs at the root only");
  if(r)A(g_nlp>0&&g_lastst==TNLPSolver::solvedOptimal,"a solution found is that of the last NLP"); check(o,r,v,v0,y);
}
CASE(milpround){
  Mod o=setup("B-BB"); g_mip=new StubLP; g_all=1; MilpRounding*h=new MilpRounding(B); o.m->numberNodes_=par("nodes",0); o.m->currentPassNumber_=par("pass",1); o.m->currentDepth_=par("depth",0);
  if(par("copy",0))h=(MilpRounding*)h->clone(); h->setModel(o.m); sym_snapshot(); node(o); double v0=sd("inc",-1,-1,-40,40),v=v0; DV y(N,777.); int r=h->solution(v,&y[0]);
  if(par("pass",1)>1||(par("depth",0)>2&&par("nodes",0)%20))A(r==0&&g_nlp==0&&g_nmip==0,"the heuristic runs only as often as asked for"); else { A(g_nmip==1,"the MILP is solved"); int good=sym_and(g_mx.size()==(size_t)N,sym_and(g_lastst==TNLPSolver::solvedOptimal,fval(&g_last[0])<v0)); A(sym_or(r,!good),"a better solution of the NLP is reported"); }
  check(o,r,v,v0,y);
}
CASE(fpump){
  g_grid=true;  if(par("adv",0))g_par["opt"]=1; Mod o=setup("B-BB"); if(par("norm",1)==2)B->options()->SetIntegerValue("bonmin.feasibility_pump_objective_norm",2,true,true); if(par("adv",0))B->options()->SetStringValue("bonmin.unstable_fp","yes",true,true); HeuristicFPump*h=new HeuristicFPump(B); o.m->numberNodes_=par("nodes",0); o.m->currentPassNumber_=par("pass",1); o.m->numberSolutions_=par("sols",0);
  if(par("copy",0))h=(HeuristicFPump*)h->clone(); h->setModel(o.m); sym_snapshot(); node(o); int st0=g_lastst; DV x0=g_last; double v0=sd("inc",-1,-1,-40,40),v=v0; DV y(N,777.); size_t c0=F.sh.calls.size(); int r=h->solution(v,&y[0]);
  std::vector<SolveRec>&C=F.sh.calls; int nc=(int)(C.size()-c0); if(par("nodes",0)||par("pass",1)>1||(par("sols",0)&&!par("adv",0))||st0!=TNLPSolver::solvedOptimal){ A(r==0&&nc==0,"the heuristic runs at the root only, from a solved NLP and without incumbent"); check(o,r,v,v0,y); return; }
  A(nc>0,"the NLP is solved"); const DV&p=nc>1?C[C.size()-2].sx:x0; SolveRec&L=C.back(); for(int i=0;i<2;i++){ double q=floor(p[i]+0.5); A(sym_and(L.l[i]==q,L.u[i]==q),"at last the integer variables are fixed at the rounded point"); } A(sym_and(L.l[2]==g_l[2],L.u[2]==g_u[2]),"continuous variables keep their bounds");
  for(int k=0;k+1<nc;k++)for(int i=0;i<N;i++)A(sym_and(C[c0+k].l[i]==g_l[i],C[c0+k].u[i]==g_u[i]),"the pump works on the bounds of the node");
  int good=sym_and(L.status==TNLPSolver::solvedOptimal,fval(&L.sx[0])<v0); A(iff(r!=0,good),"a better NLP solution with the integers fixed is reported, and nothing else"); if(nc>1&&C[C.size()-2].obj>=1e-5)A(sym_and(isint(p[0]),isint(p[1])),"the pump goes on until the point is integral or the distance is zero");
  check(o,r,v,v0,y);
}
// ---- heuristics that run the whole solver on a restricted problem ----
// The inner run of the solver is a stand-in: it ends with no solution, or with any integral feasible point
// of the problem it is given that is better than the cutoff it is given.
static struct Inner{ int runs; DV l,u; double cut,obj; int strong; DV x; bool found; std::string prefix; } I; static int g_fixd[2]; static double g_icut;
BonminSetup::BonminSetup(const BonminSetup&o,OsiTMINLPInterface&n,const std::string&p):BabSetupBase(o,n,p),algo_(B_BB){ I.prefix=p; continuousSolver_=nonlinearSolver_; }
void Bab::operator()(BabSetupBase&s){ I.runs++; OsiTMINLPInterface*q=s.nonlinearSolver(); I.l.assign(q->getColLower(),q->getColLower()+N); I.u.assign(q->getColUpper(),q->getColUpper()+N); I.cut=s.getDoubleParameter(BabSetupBase::Cutoff); I.strong=s.getIntParameter(BabSetupBase::NumberStrong);
  g_inner=true; q->initialSolve(); g_inner=false; I.found=g_lastst==TNLPSolver::solvedOptimal; if(!I.found)return; I.x=g_last; I.obj=q->getObjValue(); sym_assume(I.obj<I.cut); bestSolution_=new double[N]; for(int i=0;i<N;i++)bestSolution_[i]=I.x[i]; bestObj_=I.obj; }
OsiBranchingInformation CbcModel::usefulInformation()const{ OsiBranchingInformation i; i.solver_=solver_; i.cutoff_=getCutoff(); i.solution_=solver_->getColSolution(); return i; }
static int g_dead; struct OBJ: public OsiObject{ int j; bool own; OBJ(int j_):j(j_),own(false){} OBJ(const OBJ&o):OsiObject(o),j(o.j),own(false){} ~OBJ(){ if(own)g_dead++; } OsiObject*clone()const{return new OBJ(*this);} double infeasibility(const OsiBranchingInformation*,int&w)const{w=0;return g_fixd[j]?0.:0.25;} double feasibleRegion(OsiSolverInterface*s,const OsiBranchingInformation*i)const{ double v=floor(i->solution_[j]+0.5); s->setColLower(j,v); s->setColUpper(j,v); return 0; } OsiBranchingObject*createBranch(OsiSolverInterface*,const OsiBranchingInformation*,int)const{return 0;} };
CASE(local){
  int kind=par("kind",0); g_par["bin"]=1; Mod o=setup("B-BB"); OBJ*mine=new OBJ(0); mine->own=true; B->objects().push_back(mine); CbcHeuristic*h=kind==0?(CbcHeuristic*)new HeuristicRINS(B):kind==1?(CbcHeuristic*)new HeuristicLocalBranching(B):kind==2?(CbcHeuristic*)new FixAndSolveHeuristic(B):kind==3?(CbcHeuristic*)new DummyPump(B):(CbcHeuristic*)new PumpForMinlp(B);
  o.m->numberNodes_=par("nodes",0); o.m->currentPassNumber_=par("pass",1); o.m->numberSolutions_=par("sols",kind<2); static int iv[2]={0,1}; o.m->numberIntegers_=2; o.m->integerVariable_=iv; OsiObject**ob=new OsiObject*[2]; if(kind==2){ ob[0]=new OBJ(0); ob[1]=new OBJ(1); } else for(int j=0;j<2;j++)ob[j]=new OsiSimpleInteger(j,0.,F.t->xu[j]); o.m->object_=ob; o.m->numberObjects_=2;
  if(par("copy",0))h=h->clone(); h->setModel(o.m); sym_snapshot(); node(o); DV cur=g_last; OsiTMINLPInterface*base=B->nonlinearSolver();
  for(int i=0;i<M;i++){ const_cast<double*>(base->problem()->g_l())[i]=g_gl[i]; const_cast<double*>(base->problem()->g_u())[i]=g_gu[i]; } for(int i=0;i<N;i++){ base->setColLower(i,g_l[i]); base->setColUpper(i,g_u[i]); }
  DV best(N); for(int i=0;i<2;i++){ best[i]=sc("best",2,i); g_fixd[i]=sc("fx",2,i); } best[2]=sd("best2"); if(par("sols",kind<2))o.m->bestSolution_=&best[0]; double v0=sd("inc",-1,-1,-40,40),v=v0; o.m->dblParam_[CbcModel::CbcCurrentCutoff]=v0-0.25; DV y(N,777.);
  if(kind==0)for(int i=0;i<2;i++){ int far=sym_or(cur[i]-best[i]>=1./64,best[i]-cur[i]>=1./64); sym_assume(sym_or(far,cur[i]==best[i])); } if(kind==2)for(int i=0;i<2;i++)if(g_fixd[i])sym_assume(isint(cur[i]));
  if(par("alg",0)){ StubLP*lp=(StubLP*)o.m->solver_; lp->x=cur; lp->cl=g_l; lp->cu=g_u; } g_nlp=0; int r=h->solution(v,&y[0]);
  A(g_dead==0,"objects of the problem survive the heuristic"); if(I.runs){ if(kind!=3)A(sym_and(I.cut<=v0,I.cut>=v0-0.25),"only better solutions are sought"); else if(I.found)A(sym_or(r!=0,fval(&I.x[0])>=v0-0.25),"a point of the pump is reported if it is better than the cutoff"); A(I.strong==0,"no strong branching in the inner run"); }
  if(kind==0){ bool on=par("nodes",0)%10==0&&par("sols",1); int nf=0; for(int i=0;i<2;i++)nf+=cur[i]==best[i]; A((I.runs==1)==(on&&nf>0),"the neighbourhood is searched when there is one"); if(I.runs)for(int i=0;i<2;i++){ if(cur[i]==best[i])A(sym_and(I.l[i]==best[i],I.u[i]==best[i]),"variables agreeing with the incumbent are fixed there"); else A(sym_and(I.l[i]==g_l[i],I.u[i]==g_u[i]),"the others are free"); } }
  if(kind==2&&I.runs)for(int i=0;i<2;i++){ if(g_fixd[i])A(sym_and(I.l[i]==floor(cur[i]+0.5),I.u[i]==I.l[i]),"satisfied objects are fixed"); else A(sym_and(I.l[i]==g_l[i],I.u[i]==g_u[i]),"the others are free"); }
  if(kind==1){ A((I.runs==1)==(par("sols",1)>0),"the neighbourhood is searched once per incumbent"); if(I.runs&&I.found){ double d=0; for(int i=0;i<2;i++)d+=best[i]>0.5?1-I.x[i]:I.x[i]; A(d<=1+2*TOL,"the search stays in the neighbourhood of the incumbent"); int k=I.runs; if(r==0){ h->solution(v,&y[0]); A(I.runs==k,"no second search around the same incumbent"); return; } } }
  if(kind>2){ bool on=par("nodes",0)==0&&par("pass",1)<=1&&(kind==3||!par("sols",0)); A((I.runs==1)==on,"the heuristic runs at the root only"); }
  A((r!=0)==(I.runs>0&&I.found)||kind==3,"the solution of the inner run is reported"); if(r)for(int i=0;i<N;i++)A(same(y[i],I.x[i]),"the solution is that of the inner run"); check(o,r,v,v0,y);
}
