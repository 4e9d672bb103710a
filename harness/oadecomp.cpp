// Outer-approximation decomposition and the feasibility pump built on it: a MILP and NLPs solved in turn.
// The MILP solver is a stand-in that keeps to what a MILP solver on valid cuts may answer.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcNode.hpp"
#include "OsiAuxInfo.hpp"
#include "BonSubMipSolver.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "lpstub.hpp"
#include "BonCbc.hpp"
#include "BonAuxInfos.hpp"
#include "BonOACutGenerator2.hpp"
#include "BonFpForMinlp.hpp"
#include "BonSolverHelp.hpp"
#include "BonTNLP2FPNLP.hpp"
using namespace Bonmin;
static const int N=2,M=1,KM=3; static IF F; static BonminSetup*B; static bool g_live=false; static OsiTMINLPInterface*nlp; static StubLP*g_top,*g_mip; static BabInfo*info; static Bab*bab;
static struct Told{ int n; DV x; double obj; } T;
void OsiBabSolver::setSolution(const double*x,int n,double obj){ T.n++; T.x.assign(x,x+n); T.obj=obj; delete[] bestSolution_; bestSolution_=new double[n]; for(int i=0;i<n;i++)bestSolution_[i]=x[i]; sizeSolution_=n; bestObjectiveValue_=obj; }
/* the problem: for each value of the integer variable, the value of the NLP or none */
static int K=2; static double g_v[KM]; static int g_feas[KM]; static int g_seen[KM]; static int g_xi=-1; static double g_cut,g_best; static DV g_bestx; static int g_nbest,g_nlp,g_nmip,g_lp,g_dead,g_again,g_near; static double g_y[2]; static const double EPS=1./64;
static double dec(double u){ return u>0?u*(1-0.25):u*(1+0.25); }
static bool g_pump=false;
// what the pump asks of the NLP solver: the relaxation, the projection of the MILP point, the NLP at that point
static void pumpdraw(int k,Answer&a,StubSolver&s){ const double*l=nlp->getColLower(),*u=nlp->getColUpper(); A(sym_and(l[1]==-4,u[1]==4),"continuous variables keep their bounds"); a.x[1]=sdr("sy",-4,4,k); a.lam[0]=1; TNLP2FPNLP*fp=dynamic_cast<TNLP2FPNLP*>(Ipopt::GetRawPtr(s.lastp));
  if(fp){ A(sym_and(l[0]==0,u[0]==K-1),"the projection leaves the integer variables free"); DV p(a.x); p[0]=g_xi; double d=1; fp->eval_f(N,p.data(),true,d); A(d==0,"the distance is measured to the MILP solution"); g_near=g_feas[g_xi]||sc("near",2,k); a.obj=g_near?0:0.0625; a.x[0]=g_near?g_xi:(g_xi?g_xi-0.25:0.25); g_seen[g_xi]=1; a.st=TNLPSolver::solvedOptimal; return; }
  if(l[0]==0&&u[0]==K-1){ a.x[0]=sdr("sx",0,K-1,k); a.obj=sdr("so",-16,16,k); for(int i=0;i<K;i++)if(g_feas[i])sym_assume(a.obj<=g_v[i]); a.st=TNLPSolver::solvedOptimal; return; }
  A(g_near,"the NLP is solved at the MILP solution only if that is feasible for the constraints"); if(l[0]==u[0]){ A(sym_and(l[0]==g_xi,u[0]==g_xi),"the NLP is solved with the integer variables fixed where the MILP put them"); a.x[0]=g_xi; a.obj=g_v[g_xi]; a.st=g_feas[g_xi]?TNLPSolver::solvedOptimal:TNLPSolver::provenInfeasible; }
  else { A(!g_feas[g_xi],"the integer variables are let go only if the NLP is infeasible"); A(sym_and(sym_and(l[0]>=g_xi-0.01,l[0]<=g_xi),sym_and(u[0]<=g_xi+0.01,u[0]>=g_xi)),"they are let go within the integer tolerance"); int ok=sc("ok",2,k); a.x[0]=g_xi+0.0078125; a.obj=sdr("ro",-16,16,k); a.st=ok?TNLPSolver::solvedOptimal:TNLPSolver::provenInfeasible; }
  if(a.st==TNLPSolver::solvedOptimal&&a.obj<g_cut){ g_nbest++; g_best=a.obj; g_bestx=a.x; g_cut=dec(a.obj); } }
static void draw(int k,Answer&a,StubSolver&S){ if(!g_live)return; if(g_pump){ pumpdraw(k,a,S); return; } A(g_nlp++<4,"the NLP is not solved again and again at one MILP solution"); const double*l=nlp->getColLower(),*u=nlp->getColUpper(); A(sym_and(l[0]==g_xi,u[0]==g_xi),"the NLP is solved with the integer variables fixed where the MILP put them"); A(sym_and(l[1]==-4,u[1]==4),"continuous variables keep their bounds"); if(g_xi<0)return;
  a.x[0]=g_xi; a.x[1]=sdr("sy",-4,4,k); a.lam[0]=1; a.obj=g_v[g_xi]; g_seen[g_xi]=1; if(!g_feas[g_xi]){ a.st=TNLPSolver::provenInfeasible; return; } a.st=TNLPSolver::solvedOptimal; if(a.obj<g_cut){ g_nbest++; g_best=a.obj; g_bestx=a.x; g_cut=dec(a.obj); } }
// every integer value not tried yet is worth at least z in the MILP and the LP
static void below(double z){ for(int i=0;i<K;i++)if(g_feas[i]&&!g_seen[i])sym_assume(z<=g_v[i]); }
static void mip(SubMipSolver&s,double cutoff,bool good){ int k=g_nmip++; g_nlp=0; A(k<=K+par("again",0),"no integer value is tried twice"); if(g_pump){ A(cutoff>1e50,"any solution is looked for"); A(g_mip->n==N+1,"the MILP has the objective variable"); cutoff=g_mip->cu[N]; } A(sym_or(cutoff==g_cut,sym_and(cutoff>1e50,g_cut>1e50)),"the MILP is solved for solutions better than the best known"); A(g_mip->m>=1+(k?1:0),"the cuts are in the MILP"); delete[] s.integerSolution_; s.integerSolution_=NULL; s.nodeCount_=s.iterationCount_=1;
  int c=sc("mx",K+1,k); int opt=s.optimal_=good||par("limit",0)?sc("mo",2,k):1; double z=s.lowBound_=sdr("mz",-16,16,k);
  if(c==K){ if(opt){ if(!g_pump)sym_assume(z>=cutoff); for(int i=0;i<K;i++)if(g_feas[i]&&!g_seen[i])sym_assume(g_v[i]>=cutoff); } else below(z); }
  else { if(g_seen[c]){ if(!g_feas[c]||!opt||!par("again",0)||g_again++){ sym_assume(0); } sym_assume(sym_and(z>=g_v[c]-EPS,z<cutoff)); } else if(!g_pump)sym_assume(z<cutoff); if(!g_pump)below(z); s.integerSolution_=new double[g_mip->n]; for(int i=0;i<g_mip->n;i++)s.integerSolution_[i]=0; s.integerSolution_[0]=g_pump?c:c+sdr("me",-1./128,1./128,k); s.integerSolution_[1]=sdr("my",-4,4,k); } g_xi=c==K?-1:c; }
void SubMipSolver::optimize(double c,int,double){ A(!par("good",0),"the MILP is solved the way asked for"); mip(*this,c,false); }
void SubMipSolver::find_good_sol(double c,int,double){ A(par("good",0),"the MILP is solved the way asked for"); mip(*this,c,true); }
void SubMipSolver::setLpSolver(OsiSolverInterface*l){ g_mip=dynamic_cast<StubLP*>(l); lowBound_=-1e300; optimal_=false; delete[] integerSolution_; integerSolution_=NULL; } OsiSolverInterface*SubMipSolver::solver(){return g_mip;}
static void lpans(StubLP&s){ int k=g_lp++; A(&s!=g_top,"the node's own LP is not solved"); if(g_pump||!g_nmip){ s.status=0; if(!g_nmip&&g_pump){ s.x[0]=0.5; } return; } int c=sc("lx",K+2,k); g_dead=0; if(c==K+1){ s.status=1; g_dead=1; for(int i=0;i<K;i++)if(g_feas[i])sym_assume(0); return; } s.status=0; s.objv=sdr("lobj",-16,16,k); below(s.objv); if(s.objv>=g_cut)g_dead=1; s.x[0]=c==K?0.5:c; s.x[1]=sdr("ly",-4,4,k); if(c<K&&g_seen[c]){ if(!g_feas[c])sym_assume(0); sym_assume(s.objv>=g_v[c]-(par("again",0)?EPS:0.)); } }
static StubMINLP* setup(){ K=par("k",2); StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->linobj=true; t->vt[0]=TMINLP::INTEGER; t->xl[0]=0;t->xu[0]=K-1;t->xl[1]=-4;t->xu[1]=4; t->gl[0]=-1e300; t->gu[0]=1; t->jac[0]=1; t->jac[1]=-1; t->gradf[0]=1; t->gradf[1]=2;
  F.prepare(); F.opts("algorithm","B-QG"); F.opti("oa_log_level",0); F.optd("integer_tolerance",0.01); F.optd("cutoff_decr",0.25); F.optd("allowable_fraction_gap",par("gap",0)/64.); F.b->options()->SetStringValue("oa_decomposition.milp_strategy",par("good",0)?"find_good_sol":"solve_to_optimality"); F.b->options()->SetStringValue("pump_for_minlp.milp_strategy",par("good",0)?"find_good_sol":"solve_to_optimality"); if(par("sols",0)){ F.b->options()->SetIntegerValue("oa_decomposition.solution_limit",par("sols",0)); F.b->options()->SetIntegerValue("pump_for_minlp.solution_limit",par("sols",0)); } if(par("viol",0))F.opts("add_only_violated_oa","yes"); F.opts("oa_cuts_scope","global"); F.sh.answer=draw; F.make(t); B=new BonminSetup(); B->initialize(*F.si,true); nlp=B->nonlinearSolver(); bab=new Bab; return t; }
static StubLP*node(){ StubLP*lp=new StubLP; lp->dims(N,1); for(int i=0;i<N;i++)lp->ob[i]=i+1; lp->isint[0]=1; lp->cl[0]=0; lp->cu[0]=K-1; lp->cl[1]=-4; lp->cu[1]=4; lp->rows[0][0]=1; lp->rows[0][1]=1; lp->rl[0]=-100; lp->ru[0]=100; lp->answer=lpans; g_top=lp; BabInfo bi(0); bi.setSolverType(3); bi.setSolver(lp); bi.setBabPtr(bab); lp->setAuxiliaryInfo(&bi); info=dynamic_cast<BabInfo*>(lp->getAuxiliaryInfo()); return lp; }
static void problem(StubLP*lp,StubMINLP*t){ for(int i=0;i<K;i++){ g_feas[i]=sc("feas",2,i); g_v[i]=sdr("v",-16,16,i); } t->g[0]=sd("g"); t->f=sd("f"); lp->x[0]=par("frac",0)?(sc("frac",2)?0.5:1):0.5; lp->x[1]=0; lp->objv=-16; int c=par("cut",1)?sc("cut",2):0; lp->dol=g_cut=c?sdr("cutoff",-16,16):1e100; g_best=g_cut; }
static void after(StubLP*lp,const StubLP&was){ A(lp->m==was.m&&lp->n==was.n,"the rows of the LP are unchanged"); A(same(lp->dol,was.dol),"the cutoff of the LP is unchanged"); for(int i=0;i<N;i++){ A(sym_and(nlp->getColLower()[i]==lp->cl[i],nlp->getColUpper()[i]==lp->cu[i]),"the bounds of the NLP are restored"); A(sym_and(lp->cl[i]==was.cl[i],lp->cu[i]==was.cu[i]),"the bounds of the LP are unchanged"); A(lp->ob[i]==was.ob[i],"the objective of the LP is unchanged"); }
  A(T.n==g_nbest,"the tree search is told of each better solution, and of no other"); if(T.n){ A(T.obj==g_best,"the value told is the NLP's"); for(int i=0;i<N;i++)A(T.x[i]==g_bestx[i],"the solution told is the NLP's"); } }
CASE(oa){
  StubMINLP*t=setup(); sym_snapshot(); g_live=true; StubLP*lp=node(); problem(lp,t); StubLP was(*lp); OACutGenerator2 c(*B); OsiCuts cs; CglTreeInfo ti; ti.inTree=true; ti.pass=0; info->mipBound_=-1e100; c.generateCuts(*lp,cs,ti); after(lp,was);
  A(g_nmip>=1,"the MILP is solved"); double slack=par("gap",0)?(par("gap",0)/64.)*(g_best>0?g_best:-g_best):0.; if(par("again",0))slack+=EPS;
  int done=info->mipBound_>=g_cut; for(int i=0;i<K;i++)if(g_feas[i])A(sym_or(sym_not(done),sym_or(g_v[i]>=g_cut,g_v[i]>=g_best-slack)),"the node is finished only if no better solution is left"); for(int i=0;i<K;i++)if(g_feas[i]&&!g_seen[i])A(sym_or(done,g_v[i]>=info->mipBound_),"the bound passed on is a bound"); if(!par("limit",0)&&!par("good",0)&&!par("sols",0))A(sym_or(done,g_dead),"a search without limits ends with nothing better left in the node"); sym_reach("oa");
}
CASE(pump){
  g_pump=true; StubMINLP*t=setup(); int pass=!par("nopass",0); B->options()->SetStringValue("pump_for_minlp.fp_pass_infeasible",pass?"yes":"no"); sym_snapshot(); g_live=true; StubLP*lp=node(); problem(lp,t); StubLP was(*lp); MinlpFeasPump c(*B); OsiCuts cs; CglTreeInfo ti; ti.inTree=true; ti.pass=0; info->mipBound_=-1e100; c.generateCuts(*lp,cs,ti); after(lp,was);
  A(g_nmip>=1,"the MILP is solved"); int done=info->mipBound_>=g_cut; A(pass||!done,"the pump does not finish the node unless it is asked to"); for(int i=0;i<K;i++)if(g_feas[i])A(sym_or(!done,sym_or(g_v[i]>=g_cut,g_v[i]>=g_best)),"the node is finished only if no better solution is left"); if(done)sym_reach("done"); sym_reach("pump");
}
