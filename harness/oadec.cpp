// Outer-approximation cut generators at a node: the feasibility check of integer points, NLP solves in the tree, ECP rounds.
#include "common.hpp"
#include <memory>
#include <set>
#include <list>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#define protected public
#include "CbcModel.hpp"
#include "CbcNode.hpp"
#include "OsiAuxInfo.hpp"
#undef private
#undef protected
#include "ifstubs.hpp"
#include "lpstub.hpp"
#include "BonCbc.hpp"
#include "BonAuxInfos.hpp"
#include "BonOaFeasChecker.hpp"
#include "BonOaNlpOptim.hpp"
#include "BonEcpCuts.hpp"
#include "BonSolverHelp.hpp"
using namespace Bonmin;
static const int N=2,M=1; static IF F; static BonminSetup*B; static bool g_live=false; static OsiTMINLPInterface*nlp;
// what the tree search is told about solutions
static struct Told{ int n; DV x; double obj; } T;
void OsiBabSolver::setSolution(const double*x,int n,double obj){ T.n++; T.x.assign(x,x+n); T.obj=obj; delete[] bestSolution_; bestSolution_=new double[n]; for(int i=0;i<n;i++)bestSolution_[i]=x[i]; sizeSolution_=n; bestObjectiveValue_=obj; }
static double g_fix; static DV g_l,g_u; static bool g_fixcheck=true; static double g_best; static DV g_bestx; static int g_nbest; static double g_cut; static int g_infeas=0,g_nlp=0;
static void draw(int k,Answer&a,StubSolver&){ if(!g_live)return; g_nlp++; extern int g_lastfix_; g_lastfix_=(int)nlp->getColLower()[0]; a.st=sc("st",2,k)?TNLPSolver::provenInfeasible:TNLPSolver::solvedOptimal; const double*l=nlp->getColLower(),*u=nlp->getColUpper();
  if(g_fixcheck){ A(sym_and(l[0]==g_fix,u[0]==g_fix),"integer variables are fixed at the rounded integer point"); A(sym_and(l[1]==g_l[1],u[1]==g_u[1]),"continuous variables keep their bounds"); } else { A(sym_and(l[0]>=g_l[0],u[0]<=g_u[0]),"bounds of the integer variables"); }
  for(int i=0;i<N;i++){ a.x[i]=sd("sx",k,i); sym_assume(sym_and(a.x[i]>=l[i],a.x[i]<=u[i])); } a.obj=sd("sobj",k); a.lam[0]=1; g_infeas=a.st==TNLPSolver::provenInfeasible;
  if(a.st==TNLPSolver::solvedOptimal){ if(a.obj<g_cut){ g_nbest++; if(!g_fixcheck)g_nbest=1; g_best=a.obj; g_bestx=a.x; if(g_fixcheck)g_cut=a.obj>0?a.obj*(1-0.25):a.obj*(1+0.25); } } }
static void make(StubMINLP*t){ F.prepare(); F.opti("oa_log_level",0); F.opti("nlp_log_level",0); }
static int g_same=0; int g_lastfix_=-1; static StubLP*g_top; static int g_lp; static int g_rows0;
static void lpans(StubLP&s){ int k=g_lp++; A(&s!=g_top,"the node's own LP is not solved"); A(s.m>g_rows0,"the new cuts are in the LP"); s.status=k>=par("passes",1)?1:sc("lps",2,k); s.objv=sd("lobj",k); int b=sc("lx",3,k); s.x[0]=b==2?0.5:b+sdr("le",-1./128,1./128,k); s.x[1]=sd("ly",k); g_same=sym_and(s.status==0&&b==g_lastfix_,s.objv<g_cut); g_fix=b; }
static Bab*bab; static BabInfo*info;
static StubMINLP* setup(const char*algo){ StubMINLP*t=new StubMINLP(N,M); t->dense(); t->denseh(); t->linobj=true; t->vt[0]=TMINLP::INTEGER; t->xl[0]=0;t->xu[0]=2;t->xl[1]=-4;t->xu[1]=4; t->gl[0]=-1e300; t->gu[0]=1; t->jac[0]=1; t->jac[1]=-1; t->gradf[0]=1; t->gradf[1]=2;
  F.prepare(); F.opts("algorithm",algo); F.opti("oa_log_level",0); F.optd("integer_tolerance",0.01); F.optd("cutoff_decr",0.25); if(par("ben",0))F.opts("feas_check_cut_types","Benders"); static const char*pol[]={"detect-cycles","keep-all","treated-as-normal"}; F.opts("feas_check_discard_policy",pol[par("pol",0)]); if(par("viol",0))F.opts("add_only_violated_oa","yes"); if(par("rounds",-1)>=0)F.opti("ecp_max_rounds",par("rounds",0)); F.opts("oa_cuts_scope",par("local",0)?"local":"global"); F.optd("ecp_probability_factor",-1.); F.sh.answer=draw; F.make(t); B=new BonminSetup(); B->initialize(*F.si,true); nlp=B->nonlinearSolver(); bab=new Bab; return t; }
static StubLP*node(int frac){ StubLP*lp=new StubLP; lp->dims(N,1); for(int i=0;i<N;i++){ lp->ob[i]=i+1; } lp->isint[0]=1; lp->rows[0][0]=1; lp->rows[0][1]=1; lp->rl[0]=-100; lp->ru[0]=100; lp->answer=lpans; g_top=lp; g_rows0=1; BabInfo bi(0); bi.setSolverType(par("type",3)); bi.setSolver(lp); bi.setBabPtr(bab); lp->setAuxiliaryInfo(&bi); info=dynamic_cast<BabInfo*>(lp->getAuxiliaryInfo()); return lp; }
static void bounds(StubLP*lp){ g_l.assign(N,0);g_u.assign(N,0); for(int i=0;i<N;i++){ g_l[i]=i?sd("nl",i):0; g_u[i]=i?sd("nu",i):2; sym_assume(g_l[i]<=g_u[i]); nlp->setColLower(i,g_l[i]); nlp->setColUpper(i,g_u[i]); lp->cl[i]=g_l[i]; lp->cu[i]=g_u[i]; } }
static void kept(StubLP*lp,const StubLP&was){ for(int i=0;i<N;i++){ A(sym_and(nlp->getColLower()[i]==g_l[i],nlp->getColUpper()[i]==g_u[i]),"the bounds of the NLP are restored"); A(sym_and(lp->cl[i]==g_l[i],lp->cu[i]==g_u[i]),"the bounds of the LP are unchanged"); A(lp->x[i]==was.x[i],"the LP solution is unchanged"); } A(lp->m==was.m,"the rows of the LP are unchanged"); A(lp->dol==was.dol,"the cutoff of the LP is unchanged"); }
CASE(feas){
  StubMINLP*t=setup("B-QG"); sym_snapshot(); g_live=true; StubLP*lp=node(0); bounds(lp); t->g[0]=sd("g"); t->f=sd("f");
  int b=sc("x",3); lp->x[0]=b==2?0.5:b+sdr("e",-1./128,1./128); lp->x[1]=sd("y"); lp->objv=sd("lo"); g_fix=b; lp->dol=g_cut=sd("cutoff"); double cut0=g_cut; StubLP was(*lp);
  OaFeasibilityChecker c0(*B); CglCutGenerator*c=par("copy",0)?c0.clone():&c0; OsiCuts cs; CglTreeInfo ti; ti.inTree=true; ti.pass=0; c->generateCuts(*lp,cs,ti); kept(lp,was);
  if(b==2){ A(g_nlp==0&&T.n==0&&cs.sizeRowCuts()==0,"a fractional point is left alone"); sym_reach("fractional"); return; }
  A(g_nlp>=1,"the NLP of an integer point is solved"); A(cs.sizeRowCuts()>0,"cuts are given for an integer point"); A(T.n==g_nbest,"the tree search is told of each better solution, and of no other"); if(T.n){ A((int)T.x.size()==N+1,"solution with objective"); A(T.obj==g_best,"the value told is the NLP's"); for(int i=0;i<N;i++)A(T.x[i]==g_bestx[i],"the solution told is the NLP's"); A(T.obj<cut0,"the solution is better than the cutoff"); }
  for(int k=0;k<cs.sizeRowCuts();k++){ double ef=cs.rowCutPtr(k)->effectiveness(); if(par("pol",0)==1)A(ef>1e50,"cuts are to be kept"); A(cs.rowCutPtr(k)->globallyValidAsInteger()==1,"cuts of a convex problem are valid globally"); }
  A(sym_or(info->mipBound_<1e50,g_same),"the node is declared finished only if the LP gives the same integers again"); sym_reach("feas");
}
// NLP solves in the tree of the hybrid algorithm
CASE(nlpopt){
  StubMINLP*t=setup("B-Hyb"); sym_snapshot(); g_live=true; g_fixcheck=false; StubLP*lp=node(0); bounds(lp); t->g[0]=sd("g"); t->f=sd("f"); int a=sc("lo",3),b=sc("up",3); if(a>b)return; lp->cl[0]=a; lp->cu[0]=b; DV wl=lp->cl,wu=lp->cu; DV ol=g_l,ou=g_u; g_l[0]=a; g_u[0]=b;
  lp->x[0]=sd("x"); lp->x[1]=sd("y"); lp->objv=sd("lob"); lp->dol=g_cut=1e50; StubLP was(*lp); OaNlpOptim c0(*B); CglCutGenerator*c=par("copy",0)?c0.clone():&c0; OsiCuts cs; CglTreeInfo ti; ti.inTree=sc("tree",2); ti.pass=sc("pass",2); ti.level=par("level",0); c->generateCuts(*lp,cs,ti);
  for(int i=0;i<N;i++){ A(sym_and(nlp->getColLower()[i]==ol[i],nlp->getColUpper()[i]==ou[i]),"the bounds of the NLP are restored"); A(sym_and(lp->cl[i]==wl[i],lp->cu[i]==wu[i]),"the bounds of the LP are unchanged"); A(lp->x[i]==was.x[i],"the LP solution is unchanged"); } A(lp->m==was.m,"the rows of the LP are unchanged"); A(lp->dol==was.dol,"the cutoff of the LP is unchanged");
  if(!ti.inTree||ti.pass>0||ti.level>10){ A(g_nlp==0&&cs.sizeRowCuts()==0&&T.n==0,"NLPs are solved once per node of the tree, down to the depth limit"); sym_reach("skip"); return; }
  A(g_nlp>=1,"the NLP is solved"); if(!par("viol",0))A(cs.sizeRowCuts()>=1,"cuts at the NLP solution"); if(T.n){ A(g_nbest==1,"only an optimal solution is told"); A(T.obj==g_best,"the value told is the NLP's"); for(int i=0;i<N;i++)A(T.x[i]==g_bestx[i],"the solution told is the NLP's"); double r=T.x[0]; A(sym_or(sym_or(sym_near(r,0,1e-6),sym_near(r,1,1e-6)),sym_near(r,2,1e-6)),"a solution told is integer"); } else if(g_nbest){ double r=g_bestx[0]; A(sym_not(sym_or(sym_or(r==0,r==1),r==2)),"an integer NLP solution is told"); } sym_reach("nlpopt");
}
// rounds of extended cutting planes
static int g_ecpn; static StubMINLP*g_t; static void ecpans(StubLP&s){ int k=g_lp++; A(&s!=g_top,"the node's own LP is not solved"); if(k<g_ecpn-1||g_ecpn==0){} s.status=sc("lps",2,k); s.objv=g_t->f; s.x[0]=sd("lx",k); s.x[1]=sd("ly",k); if(par("gk",1))g_t->g[0]=sd("gk",k); }
CASE(ecp){
  StubMINLP*t=setup("B-Ecp"); sym_snapshot(); g_live=true; g_t=t; StubLP*lp=node(0); bounds(lp); double g0=t->g[0]=sd("g"); t->f=sd("f"); lp->answer=ecpans; lp->x[0]=sd("x"); lp->x[1]=sd("y"); lp->objv=t->f; lp->dol=g_cut=sd("cutoff"); StubLP was(*lp); double f0=t->f;
  EcpCuts c0(*B); CglCutGenerator*c=par("copy",0)?c0.clone():&c0; OsiCuts cs; CglTreeInfo ti; ti.inTree=true; ti.pass=0; c->generateCuts(*lp,cs,ti); kept(lp,was); A(g_nlp==0,"no NLP is solved"); (void)f0;
  int rounds=par("rounds",5); int viol=g0>1+1e-4; int ok=g0<1; A(sym_implies(sym_and(viol,rounds>0),cs.sizeRowCuts()>0),"a violated constraint gives a cut"); A(sym_implies(ok,cs.sizeRowCuts()==0),"a point which satisfies the constraints gives none"); A(cs.sizeRowCuts()<=rounds,"one cut per round and constraint");
  if(cs.sizeRowCuts()&&!par("viol",0)){ DV y(2); y[0]=sd("py",0); y[1]=sd("py",1); double lin=g0+(y[0]-was.x[0])-(y[1]-was.x[1]); double l=cutlhs(*cs.rowCutPtr(0),&y[0]); A(sym_implies(lin<=1,l<=cs.rowCutPtr(0)->ub()+1e-6),"the first cut is the linearisation at the LP point"); A(sym_implies(l<=cs.rowCutPtr(0)->ub(),lin<=1+1e-3),"the first cut is the linearisation at the LP point"); } sym_reach("ecp");
}
